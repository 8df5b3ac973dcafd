"""Shared contracts of helper functions (each is itself proved in the check named beside it)."""
import z3
from pyvc.lib import silent
from pyvc.bitmap import *
with silent():
    import pythonbmp.BITMAPlib as B
    import pythonbmp.colors as COLORS

LIB = 'pythonbmp.BITMAPlib'


def c_xbytes(ctx, x, bits):
    """requires x >= 0, bits in {1,4,8,24}; ensures result == 4*ceil(x*bits/32)      (proved: C01)"""
    if is_sym(bits) or bits not in HDR:
        return NotImplemented
    ctx.prove(lift(x) >= 0 if is_sym(x) else x >= 0, f'_xbytes precondition at {ctx.where()}', 'pre')
    return rowbytes(ctx, x, bits)


REG = {(LIB, '_xbytes'): c_xbytes}


def reg(**kw):
    r = dict(REG)
    for k, v in kw.items():
        r[(LIB, k)] = v
    return r


def bmp_inputs(b, /, **terms):
    """model -> concrete inputs (bitmap rebuilt, other terms evaluated)"""
    def f(ctx, model):
        ev = lambda t: model.eval(lift(t), model_completion=True)
        out = {}
        for k, t in terms.items():
            if is_symbool(t):
                out[k] = z3.is_true(model.eval(t, model_completion=True))
            elif is_sym(t):
                v = ev(t)
                out[k] = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
            else:
                out[k] = t
        bb = ctx.ghost.get('b')
        if bb is not None:
            out['bmp'] = conc_bmp(model, bb)
            if out['bmp'] is None:
                return None
        return out
    return f


def small(ctx):
    """hints that steer solver models to small bitmaps"""
    w, h = z3.Int('w'), z3.Int('h')
    return [[w <= 8, h <= 6], [w <= 40, h <= 20], [w <= 300, h <= 300, w * 0 + h >= 1]]


GEOM = list(range(18, 26)) + [28]
HEAD = list(range(2, 14)) + GEOM


def pre_bmp(ctx, a, what, fields=HEAD):
    """precondition: the array is still a well-formed bitmap (length and header fields as when it was created)"""
    b = a.bmp if isinstance(a, Arr) else None
    if b is None:
        return None
    ctx.prove(and_(*[eqv(a.view(k), b.base(k)) for k in fields]), f'{what} precondition: header fields intact at {ctx.where()}', 'pre')
    ctx.prove(eqv(a.length, b.length), f'{what} precondition: length intact at {ctx.where()}', 'pre')
    return b


def pix_update(ctx, a, b, cond, x, y, c):
    """view of array a with pixel (x,y) set to colour c where cond holds"""
    old = a.snapshot()
    o = b.off(ctx, x, y)
    bits = b.bits
    if bits == 24:
        vals = [(c_div(c, 1, 256)), (c_div(c, 256, 256)), (c_div(c, 65536, 256))]
        pos = [unlift(lift(o) + i) for i in range(3)]
    else:
        pos = [o]
        ov = old(o)
        if bits == 8:
            v = c
        elif bits == 4:
            hi, lo = ctx.binop('//', ov, 16), ctx.binop('%', ov, 16)
            odd = unlift(lift(x) % 2 == 1)
            v = merge_val(odd, unlift(16 * lift(hi) + lift(c)), unlift(16 * lift(c) + lift(lo))) if is_sym(odd) else \
                (unlift(16 * lift(hi) + lift(c)) if odd else unlift(16 * lift(c) + lift(lo)))
        else:
            sh = lift(x) % 8
            n = [unlift(z3.If(sh == 7 - i, lift(c), lift(u))) for i, u in enumerate(bits8(ctx, ov))]
            v = mk8(ctx, n)
        vals = [v]
    hd = b.hdr

    def view(j):
        if not is_sym(j) and j < hd:
            return old(j)
        r = old(j)
        for p, v in zip(pos, vals):
            e = unlift(z3.And(cond, lift(j) == lift(p)))
            r = merge_val(e, v, r) if is_sym(e) else (v if e else r)
        return r
    a.set_view(view)


def c_div(c, d, m):
    return unlift((lift(c) / d) % m)


def region(ctx, b, align):
    """an in-bounds region in any corner order -> (args, sorted); align: at 1 and 4 bits byte-aligned"""
    x1, y1, x2, y2 = z3.Ints('x1 y1 x2 y2')
    ctx.fact(z3.And(b.inside(x1, y1), b.inside(x2, y2)))
    X1, X2 = (x1, x2) if ctx.decide(x1 <= x2) else (x2, x1)
    Y1, Y2 = (y1, y2) if ctx.decide(y1 <= y2) else (y2, y1)
    if align and b.bits in (1, 4):
        n = 8 // b.bits
        # byte-aligned: columns in whole bytes
        q1, q2 = z3.Ints('xq1 xq2')
        ctx.fact(z3.And(X1 == n * q1, X2 == n * q2 + n - 1, q1 >= 0, q2 >= q1))
    return (x1, y1, x2, y2), (X1, Y1, X2, Y2)


REGION_IN = dict(x1=z3.Int('x1'), y1=z3.Int('y1'), x2=z3.Int('x2'), y2=z3.Int('y2'))


def inrect(x, y, X1, Y1, X2, Y2):
    return z3.And(lift(x) >= X1, lift(x) <= X2, lift(y) >= Y1, lift(y) <= Y2)


def bytecols(b, X1, X2):
    """first byte column and number of bytes of pixel columns X1..X2"""
    if b.bits == 24:
        return 3 * X1, 3 * (X2 - X1 + 1)
    n = 8 // b.bits
    return (X1, X2 - X1 + 1) if n == 1 else (X1 / n, X2 / n - X1 / n + 1)


def c_plotxybit(ctx, a, x, y, c):
    """requires well-formed bitmap, 0 <= c < 2^depth; sets pixel (x,y) if inside, changes nothing else     (proved: C02)"""
    b = pre_bmp(ctx, a, 'plotxybit')
    if b is None:
        return NotImplemented
    for v in (x, y, c):
        if is_sym(v) and lift(v).sort() != I:
            return NotImplemented
    ctx.prove(z3.And(lift(c) >= 0, lift(c) < 1 << b.bits), f'plotxybit precondition: valid colour at {ctx.where()}', 'pre')
    ins = unlift(b.inside(x, y))
    if not is_sym(ins):
        if ins:
            pix_update(ctx, a, b, z3.BoolVal(True), x, y, c)
        return None
    if not ctx.valid(ins):
        if ctx.valid(z3.Not(ins)):
            return None
        pix_update(ctx, a, b, ins, x, y, c)
    else:
        pix_update(ctx, a, b, z3.BoolVal(True), x, y, c)
    return None


def c_getxybit(ctx, a, x, y):
    """requires well-formed bitmap; ensures result = colour number of the pixel, -1 outside      (proved: C02)"""
    b = pre_bmp(ctx, a, 'getxybit')
    if b is None:
        return NotImplemented
    ins = unlift(b.inside(x, y))
    if not is_sym(ins):
        if not ins:
            return -1
    elif not ctx.decide(ins):
        return -1
    v = b.pixel(ctx, a.view, x, y)
    return v


REGP = reg(plotxybit=c_plotxybit, getxybit=c_getxybit)


def cases(ctx, conds, thunk):
    """prove the obligations of thunk(i) in a scope with conds[i] assumed; the cases must be exhaustive (obligation)"""
    ctx.prove(z3.Or(*conds), 'case split is exhaustive', 'lemma')
    for i, c in enumerate(conds):
        ctx.push()
        try:
            ctx.solver.add(c)
            if ctx.check() != z3.unsat:
                thunk(i)
        except PathEnd:
            pass
        finally:
            ctx.pop()


def prove_pixel(ctx, b, view, x2, y2, expected, label, x=None, y=None):
    """pixel (x2,y2), assumed inside, read through view == expected; split so that every case is easy for the solver"""
    if b.bits != 1:
        ctx.prove(lift(b.pixel(ctx, view, x2, y2)) == lift(expected), label)
        return

    def inner():
        o = b.off(ctx, x2, y2)
        n = bits8(ctx, view(o))
        for i in range(8):
            ctx.prove(z3.Implies(x2 % 8 == i, lift(n[7 - i]) == lift(expected)), f'{label} [bit {7 - i}]')
    if x is None:
        return inner()
    cases(ctx, [lift(y2) != lift(y), z3.And(lift(y2) == lift(y), x2 / 8 != lift(x) / 8), z3.And(lift(y2) == lift(y), x2 / 8 == lift(x) / 8)],
          lambda i: inner())


def prove_sum(ctx, term, n, f, label):
    """term is the sum of f(0)..f(n-1): the code's sum has the same length and the same elements"""
    for S, m, get in ctx.ghost.get('sums', {}).values():
        if z3.is_expr(term) and z3.eq(S, term):
            ctx.prove(eqv(m, n), f'{label} [number of terms]')
            j = ctx.fresh('js')
            ctx.push()
            ctx.solver.add(j >= 0, j < lift(n))
            ctx.prove(lift(get(j)) == lift(f(j)), f'{label} [every term]')
            ctx.pop()
            return
    ctx.prove(False, f'{label} [is not a sum over the sequence]')


def find_sum(ctx, n, f):
    """the constant of a sum over the sequence f(0)..f(n-1) that the code computed, or None"""
    for S, m, get in ctx.ghost.get('sums', {}).values():
        j = ctx.fresh('js')
        if ctx.valid(z3.And(lift(m) == lift(n), z3.Implies(z3.And(j >= 0, j < lift(n)), lift(get(j)) == lift(f(j))))):
            return S
    return None


def rcview(ctx, b, entry, fn):
    """byte view: header bytes as in entry; pixel-area byte at (row, col) is fn(row, col, j)"""
    def view(j):
        if not is_sym(j) and j < b.hdr:
            return entry(j)
        r, c = ctx.rc(b, j)
        v = fn(lift(r), lift(c), j)
        if ctx.valid(lift(j) >= b.hdr):
            return unlift(lift(v))
        return unlift(z3.If(lift(j) < b.hdr, lift(entry(j)), lift(v)))
    return view


def bmp_at(ctx, b, entry, row, col):
    """entry byte at (row, col) of the pixel area"""
    return entry(unlift(b.hdr + lift(ctx.mul(unlift(row), b.R)) + col))


def nibflip(v):
    """byte with its two nibbles exchanged"""
    if not is_sym(v):
        return (v & 15) << 4 | v >> 4
    v = lift(v)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return unlift(z3.If(v.arg(0), lift(nibflip(unlift(v.arg(1)))), lift(nibflip(unlift(v.arg(2))))))
    return unlift(v / 16 + 16 * (v % 16))


def bitrev(ctx, v):
    """byte with its eight bits in reversed order"""
    if not is_sym(v):
        return int(f'{v & 255:08b}'[::-1], 2)
    v = lift(v)
    key = ('bitrev', v.get_id())
    if key in ctx.rc_memo:
        return ctx.rc_memo[key][0]
    if ctx.ghost.get('bituf'):
        r = z3.Function('bitrev', I, I)(v)
        ctx.fact_once(('bitrev', r.get_id()), z3.And(r >= 0, r <= 255, *[bit_fun(i)(r) == bit_fun(7 - i)(v) for i in range(8)]))
        ctx.keep.append(r)
        return r
    n = bits8(ctx, v)
    r = ctx.fresh('rev')
    ctx.fact(z3.And(r >= 0, r <= 255, r == z3.Sum([lift(u) * (1 << (7 - i)) for i, u in enumerate(n)])))
    ctx.rc_memo[('bits8', r.get_id())] = (n[::-1], r)
    ctx.rc_memo[key] = (r, v)
    ctx.rc_memo[('bitrev', r.get_id())] = (v, r)
    return r


def c_rotatebitsinbuf(ctx, buf):
    """requires bytes; ensures a byte array of the same length with every byte bit-reversed     (proved: C06)"""
    if not isinstance(buf, Arr) or buf.kind != 'B':
        return NotImplemented
    v = buf.snapshot()
    return ctx.mk('B', length=buf.length, view=lambda j: bitrev(ctx, v(j)))


def halfmirror(ctx, v, bits, mode):
    """byte mirrored within itself; L keeps the left (high) pixels, R the right ones"""
    if bits == 4:
        if not is_sym(v):
            return 17 * (v >> 4 if mode == 'L' else v & 15)
        v = lift(v)
        return unlift(17 * (v / 16 if mode == 'L' else v % 16))
    if not is_sym(v):
        f = f'{v & 255:08b}'
        return int(f[:4] + f[:4][::-1], 2) if mode == 'L' else int(f[4:][::-1] + f[4:], 2)
    v = lift(v)
    key = ('halfm', mode, v.get_id())
    if key in ctx.rc_memo:
        return ctx.rc_memo[key][0]
    if ctx.ghost.get('bituf'):
        r = z3.Function('halfmirror' + mode, I, I)(v)
        ctx.fact_once(('halfm', r.get_id()), z3.And(r >= 0, r <= 255, *[bit_fun(i)(r) == bit_fun(i if (i >= 4) == (mode == 'L') else 7 - i)(v) for i in range(8)]))
        ctx.keep.append(r)
        return r
    n = bits8(ctx, v)
    m = [n[7 - i] for i in range(4)] + n[4:] if mode == 'L' else n[:4] + [n[7 - i] for i in range(4, 8)]
    r = ctx.fresh('hm')
    ctx.fact(z3.And(r >= 0, r <= 255, r == z3.Sum([lift(u) * (1 << i) for i, u in enumerate(m)])))
    ctx.rc_memo[('bits8', r.get_id())] = (m, r)
    ctx.rc_memo[key] = (r, v)
    return r


def c_mirrorbitsinbuf(ctx, buf, flipfunc, keepmask):
    """requires bytes, flipfunc one of the two byte flips, mask 0xF0 or 0x0F; ensures every byte mirrored within itself     (proved: C06)"""
    if not isinstance(buf, Arr) or buf.kind != 'B' or keepmask not in (0xF0, 0x0F):
        return NotImplemented
    bits = {'flipnibbleinbuf': 4, 'rotatebitsinbuf': 1}.get(getattr(flipfunc, '__name__', ''))
    if bits is None:
        return NotImplemented
    v = buf.snapshot()
    return ctx.mk('B', length=buf.length, view=lambda j: halfmirror(ctx, v(j), bits, 'L' if keepmask == 0xF0 else 'R'))


def pixmap_view(ctx, b, entry, f):
    """byte view in which every pixel (x,y) has the colour f(x, y, c) where c is its colour in entry (24 bit: f(x, y, ch, byte) per channel, 0 = blue);
    header and row padding as in entry"""
    bits = b.bits

    def fn(row, col, j):
        e = entry(j)
        y = unlift(lift(b.h) - 1 - row)
        y = lift(y)
        if bits == 24:
            x = col / 3
            return z3.If(x < b.w, lift(f(x, y, col % 3, e)), lift(e))
        if bits == 8:
            return z3.If(col < b.w, lift(f(col, y, e)), lift(e))
        if bits == 4:
            e_ = lift(e)
            hi, lo = e_ / 16, e_ % 16
            x = 2 * col
            return 16 * z3.If(x < b.w, lift(f(x, y, hi)), hi) + z3.If(x + 1 < b.w, lift(f(x + 1, y, lo)), lo)
        n = bits8(ctx, e)
        return lift(mk8(ctx, [z3.If(8 * col + 7 - i < b.w, lift(f(8 * col + 7 - i, y, n[i])), lift(n[i])) for i in range(8)]))
    return rcview(ctx, b, entry, fn)


class PixLoops(LoopSpec):
    """nested pixel loops: done[d](L, k) -> predicate (x,y) "already treated since loop d was entered"; treated pixels have colour f(x,y,old)"""
    def __init__(self, b, L, done, f):
        self.b, self.done, self.f = b, done, f

    def arr(self, L, a, k):
        if a.bmp is not self.b or L.depth >= len(self.done):
            return None
        p = self.done[L.depth](L, lift(k))
        f = self.f
        if self.b.bits == 24:
            g = lambda x, y, ch, o: z3.If(p(x, y), lift(f(x, y, ch, o)), lift(o))
        else:
            g = lambda x, y, o: z3.If(p(x, y), lift(f(x, y, o)), lift(o))
        return ArrSpec(view=pixmap_view(L.ctx, self.b, L.entry(a), g))


def raster(X1, Y1, X2, Y2):
    """done predicates of a row by row, left to right walk over a rectangle"""
    def outer(L, k):
        return lambda x, y: z3.And(x >= X1, x <= X2, y >= Y1, y < Y1 + k)

    def inner(L, k):
        yk = Y1 + lift(L.ctx.loops[0].k)
        return lambda x, y: z3.And(y == yk, x >= X1, x < X1 + k)
    return [outer, inner]


def byte_view(ctx, f):
    """view of an arbitrary byte sequence"""
    def v(j):
        t = f(lift(j))
        ctx.fact_once(('bb', t.get_id()), z3.And(t >= 0, t <= 255))
        ctx.keep.append(t)
        return t
    return v


def fresh_bmp(ctx, x, y, bits, pal=None):
    """a new well-formed bitmap of the given size with zero pixels and the default palette"""
    x, y = lift(x), lift(y)
    R = rowbytes(ctx, unlift(x), bits)
    hdr = HDR[bits]
    b = Bmp(ctx, bits, unlift(x), unlift(y), R)
    if is_sym(R):
        ctx.register_mult(R, y)
    length = unlift(hdr + lift(ctx.mul(unlift(y), R)))
    ctx.fact(z3.And(x < 2**31, y < 2**31, lift(length) < 2**32, lift(length) >= hdr + lift(R), lift(length) >= hdr + y))
    f = ctx.fresh_fun('new')
    b.fun = f
    known = {0: 66, 1: 77, 6: 0, 7: 0, 8: 0, 9: 0, 10: hdr & 255, 11: hdr >> 8, 12: 0, 13: 0, 14: 40, 15: 0, 16: 0, 17: 0, 28: bits}
    for i, (r, g, bl) in enumerate(COLORS.getdefaultbitpal(bits) if bits < 24 else ()):
        for k, v in enumerate((bl, g, r, 0)):
            known[54 + 4 * i + k] = v

    def elem(j):
        if not is_sym(j):
            if j in known:
                return known[j]
            if j >= hdr:
                return 0
        t = f(lift(j))
        ctx.fact_once(('byte', t.get_id()), z3.And(t >= 0, t <= 255, z3.Implies(lift(j) >= hdr, t == 0)))
        ctx.keep.append(t)
        return t
    a = ctx.mk('B', length=length, view=elem)

    def field(at, n, val):
        tot = [elem(at + i) * (1 << (8 * i)) for i in range(n)]
        ctx.fact(z3.Sum(tot) == lift(val))
        d, c = linform(z3.Sum(tot))
        ctx.abbrev[frozenset((k, v[1]) for k, v in d.items())] = val
        ctx.keep.append((tot, d))
    field(2, 4, length)
    field(18, 4, unlift(x))
    field(22, 4, unlift(y))
    for k, v in known.items():
        ctx.fact(f(z3.IntVal(k)) == v)
    b.base = elem
    b.arr = a
    a.bmp = b
    a.entry = elem
    b.length = length
    return a, b


def c_newBMP(ctx, x, y, bits):
    """requires x, y >= 1 and a supported depth (and a size within the format's limit); ensures a fresh well-formed bitmap of that
    size and depth with the default palette and zero pixels     (proved: C01)"""
    if is_sym(bits) or bits not in HDR:
        return NotImplemented
    ctx.prove(z3.And(lift(x) >= 1, lift(y) >= 1), f'newBMP precondition: positive size at {ctx.where()}', 'pre')
    a, b = fresh_bmp(ctx, x, y, bits)
    ctx.ghost.setdefault('new', []).append(b)
    return a


def newest(ctx):
    return ctx.ghost['new'][-1]


def same_palette(ctx, a, b, src, sb, label='same palette as the source'):
    j = ctx.fresh('jpal')
    if b.bits == 24:
        return
    ctx.push()
    try:
        ctx.solver.add(j >= 54, j < b.hdr)
        ctx.prove(lift(a.view(j)) == lift(sb(j)), label)
    except PathEnd:
        pass
    finally:
        ctx.pop()


def opaque_pixel(ctx, b, x, y):
    """colour number of pixel (x,y) of the unmodified bitmap b, as an uninterpreted function of the coordinates (opaque: its
    definition, b.pixel of the entry bytes, is only needed where the two are related)"""
    f = z3.Function(f'pixel{b.uid - ctx.ghost.setdefault("uid0", b.uid)}', I, I, I)
    t = f(lift(x), lift(y))
    ctx.fact_once(('opq', t.get_id()), z3.Implies(b.inside(x, y), z3.And(t >= 0, t < 1 << b.bits)))
    ctx.keep.append(t)
    return t


def c_getxybit_opaque(ctx, a, x, y):
    """as c_getxybit, for a bitmap that has not been written to since the beginning     (proved: C02)"""
    b = pre_bmp(ctx, a, 'getxybit')
    if b is None or ctx.ghost.get('frozen', {}).get(a.oid) != a.ver:
        return c_getxybit(ctx, a, x, y)
    ins = unlift(b.inside(x, y))
    if not is_sym(ins):
        if not ins:
            return -1
    elif not ctx.decide(ins):
        return -1
    return opaque_pixel(ctx, b, x, y)


def freeze(ctx, a):
    ctx.ghost.setdefault('frozen', {})[a.oid] = a.ver


def frame_with(ctx, *names):
    """the innermost frame that has all these locals"""
    for f in reversed(ctx.frames):
        if all(n in f.vars for n in names):
            return f.vars
    return None


class ScanSpec(LoopSpec):
    """the byte-wise scan of the pixel area in iterimagecolor / iterimageRGB: at the loop head the scan stands before the pixel (x,y) at
    the beginning of a byte (24 bit: of a pixel); content(L, x, y, a) -> ArrSpec of what a consumer built from the pixels before it"""
    def __init__(self, b, content=None, extra=None):
        self.b, self.content, self.extra = b, content, extra

    def vars(self, L):
        return frame_with(L.ctx, 'offset', 'maxoffset', 'x', 'y', 'mx')

    def inv(self, L, k):
        v = self.vars(L)
        if v is None:
            return []
        b, ctx = self.b, L.ctx
        x, y, o = lift(v['x']), lift(v['y']), lift(v['offset'])
        n = {24: 1, 8: 1, 4: 2, 1: 8}[b.bits]
        d = 3 if b.bits == 24 else 1
        row = lift(b.h) - 1 - y
        ctx.register_mult(b.R, row)
        out = [o == lift(ctx.mul(unlift(row), b.R)) + d * (x / n if n > 1 else x),
               z3.And(x >= 0, x < lift(b.w), y >= -1, y < lift(b.h), z3.Implies(y == -1, x == 0))]
        if n > 1:
            out.append(x % n == 0)
        if self.extra:
            out += self.extra(L, x, y)
        return out

    def arr(self, L, a, k):
        v = self.vars(L)
        if v is None or self.content is None:
            return None
        return self.content(L, lift(v['x']), lift(v['y']), a)


def scan_done(X, Y):
    """pixels the bottom-up scan has treated when it stands before (X,Y)"""
    return lambda x, y: z3.Or(y > Y, z3.And(y == Y, x < X))


# ---- the image iterators as contracts --------------------------------------

def cursor(ctx, b):
    """position of the bottom-up scan before its k-th pixel, as functions of k"""
    u = b.uid - ctx.ghost.setdefault('uid0', b.uid)
    Xf, Yf = z3.Function(f'curx{u}', I, I), z3.Function(f'cury{u}', I, I)
    total = lift(ctx.mul(b.w, b.h))
    w, h = lift(b.w), lift(b.h)
    z, n = z3.IntVal(0), total
    ctx.fact_once(('cursor', u), z3.And(Xf(z) == 0, Yf(z) == h - 1, Xf(n) == 0, Yf(n) == -1, total >= w, total >= h))

    def at(k):
        k = lift(k)
        X, Y = Xf(k), Yf(k)
        X1, Y1 = Xf(k + 1), Yf(k + 1)
        ctx.fact_once(('cur', u, k.get_id()), z3.Implies(z3.And(k >= 0, k < total), z3.And(
            X >= 0, X < w, Y >= 0, Y < h, z3.If(X + 1 < w, z3.And(X1 == X + 1, Y1 == Y), z3.And(X1 == 0, Y1 == Y - 1)))))
        ctx.keep.append(k)
        return X, Y
    return at, total


def c_iterimagecolor(ctx, a, *msgs):
    """requires a well-formed bitmap; yields ((x,y), colour) of every pixel once, row by row from the bottom, left to right, colours as
    they were at the call     (proved: C09)"""
    b = pre_bmp(ctx, a, 'iterimagecolor')
    if b is None:
        return NotImplemented
    at, n = cursor(ctx, b)
    frozen = ctx.ghost.get('frozen', {}).get(a.oid) == a.ver
    v = a.snapshot()

    def get(k):
        X, Y = at(k)
        return ((X, Y), opaque_pixel(ctx, b, X, Y) if frozen else b.pixel(ctx, v, X, Y))
    return SeqObj(unlift(n), get)


class CursorSpec(LoopSpec):
    """a loop over iterimagecolor(b): content(L, done, a) -> ArrSpec of what was built from the pixels with done(x,y)"""
    def __init__(self, b, content):
        self.b, self.content = b, content

    def arr(self, L, a, k):
        X, Y = cursor(L.ctx, self.b)[0](k)
        return self.content(L, scan_done(X, Y), a)
