"""Symbolic bitmaps: the abstract view of the byte array every library function works on.

well_formed(bmp): file id, file size field = length = header + height*rowbytes, header size, width, height, bits;
rowbytes R = 4*ceil(width*bits/32).  Dimensions and file size are below 2^32 (the format's limit).
"""
import z3
from array import array
from .terms import *
from .engine import *
from .interp import *

HDR = {1: 62, 4: 118, 8: 1078, 24: 54}


def rowbytes(ctx, x, bits):
    """R(x,bits) = 4*ceil(x*bits/32); symbolic x: one constant per term with its defining facts"""
    if not is_sym(x):
        return 4 * ((x * bits + 31) // 32)
    x = lift(unlift(x))
    if not is_sym(unlift(x)):
        return rowbytes(ctx, unlift(x), bits)
    key = ('R', x.get_id(), bits)
    if key not in ctx.rc_memo:
        R = ctx.fresh(f'R{bits}')
        t = ctx.fresh('Rq')
        ctx.fact(z3.And(R == 4 * t, 8 * R >= x * bits, 8 * R < x * bits + 32))
        ctx.add_stride(R)
        ctx.rc_memo[key] = (R, None, x)
    return ctx.rc_memo[key][0]


def bit_fun(i):
    return z3.Function(f'bit{i}', I, I)


MK8 = z3.Function('mk8', *[I] * 9)


def mk8(ctx, n):
    """the byte with the given bits (least significant first; terms known to be 0 or 1)"""
    if not any(is_sym(v) for v in n):
        return sum(v << i for i, v in enumerate(n))
    n = [lift(v) for v in n]
    ok = z3.And(*[z3.And(v >= 0, v <= 1) for v in n])
    if ctx.ghost.get('bituf'):
        r = MK8(*n)
        ctx.fact_once(('mk8f', r.get_id()), lambda: z3.Implies(ok, z3.And(r >= 0, r <= 255, *[bit_fun(i)(r) == v for i, v in enumerate(n)])))
        ctx.keep.append(r)
        return r
    r = ctx.fresh('nb')
    ctx.fact(z3.Implies(ok, z3.And(r >= 0, r <= 255, r == z3.Sum([v * (1 << i) for i, v in enumerate(n)]))))
    ctx.rc_memo[('bits8', r.get_id())] = (n, r)
    return r


def bits8(ctx, t):
    """the eight bits (0/1 terms, least significant first) of a byte-valued term"""
    if not is_sym(t):
        return [(t >> i) & 1 for i in range(8)]
    t = lift(t)
    if ctx.ghost.get('bituf'):
        # bytes are only moved here: the bits of a byte as uninterpreted functions of it
        n = [bit_fun(i)(t) for i in range(8)]
        ctx.fact_once(('mk8', t.get_id()), lambda: z3.And(*[z3.And(v >= 0, v <= 1) for v in n], z3.Implies(z3.And(t >= 0, t <= 255), MK8(*n) == t)))
        ctx.keep.append(t)
        return n
    key = ('bits8', t.get_id())
    if key in ctx.rc_memo:
        return ctx.rc_memo[key][0]
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        p, q = bits8(ctx, unlift(t.arg(1))), bits8(ctx, unlift(t.arg(2)))
        n = [u if (u is v or (not is_sym(u) and not is_sym(v) and u == v)) else unlift(z3.If(c, lift(u), lift(v))) for u, v in zip(p, q)]
    else:
        n = [ctx.fresh('bit') for _ in range(8)]
        ctx.fact(z3.And(*[z3.And(v >= 0, v <= 1) for v in n]))
        ctx.fact(z3.Implies(z3.And(t >= 0, t <= 255), t == z3.Sum([v * (1 << i) for i, v in enumerate(n)])))
    ctx.rc_memo[key] = (n, t)
    return n


class Bmp:
    """geometry of a symbolic bitmap"""
    n = 0

    def __init__(self, ctx, bits, w, h, R):
        Bmp.n += 1
        self.uid = Bmp.n
        self.bits, self.w, self.h, self.R = bits, w, h, R
        self.hdr = HDR[bits]
        self.base = None
        self.arr = None

    def off(self, ctx, x, y):
        """byte offset of pixel (x, y) and position inside the byte"""
        q = {24: lambda: lift(x) * 3, 8: lambda: lift(x), 4: lambda: lift(x) / 2, 1: lambda: lift(x) / 8}[self.bits]()
        return unlift(self.hdr + q + lift(ctx.mul(unlift(lift(self.h) - lift(y) - 1), self.R)))

    def inside(self, x, y):
        return z3.And(lift(x) >= 0, lift(x) < lift(self.w), lift(y) >= 0, lift(y) < lift(self.h))

    def pixel(self, ctx, view, x, y):
        """colour number of the pixel (x,y) assumed inside, read from an array view"""
        o = self.off(ctx, x, y)
        if self.bits == 24:
            return unlift(lift(view(o)) + 256 * lift(view(unlift(lift(o) + 1))) + 65536 * lift(view(unlift(lift(o) + 2))))
        b = lift(view(o))
        if self.bits == 8:
            return unlift(b)
        if self.bits == 4:
            return unlift(z3.If(lift(x) % 2 == 1, b % 16, b / 16))
        n = bits8(ctx, unlift(b))
        sh = unlift(lift(x) % 8)
        if not is_sym(sh):
            return n[7 - sh]
        r = lift(n[7])
        for i in range(1, 8):
            r = z3.If(sh == i, lift(n[7 - i]), r)
        return unlift(r)


def sym_bmp(ctx, bits, tag='', like=None):
    """an arbitrary well-formed bitmap (like: of the same width and height as that one)"""
    w, h = (z3.Int('w' + tag), z3.Int('h' + tag)) if like is None else (like.w, like.h)
    fs = z3.Int('fs' + tag)
    ctx.fact(z3.And(w >= 1, h >= 1, w < 2**31, h < 2**31, fs < 2**32))
    hdr = HDR[bits]
    R = rowbytes(ctx, w, bits)
    b = Bmp(ctx, bits, w, h, R)
    ctx.register_mult(R, h)
    length = unlift(hdr + lift(ctx.mul(h, R)))
    ctx.fact(fs == lift(length))
    ctx.fact(z3.And(lift(length) >= hdr + R, lift(length) >= hdr + h))
    f = z3.Function('bmp' + tag, I, I)
    b.fun = f
    a = ctx.mk('B', length=length, view=lambda j: elem(j))

    def elem(j):
        if not is_sym(j) and j in known:
            return known[j]
        t = f(lift(j))
        key = ('byte', f.name(), lift(j).get_id())
        if key not in ctx.fact_keys:
            ctx.fact_keys[key] = (t, j)
            ctx.fact(z3.And(t >= 0, t <= 255))
        return t
    known = {}

    def field(at, n, val):
        tot = []
        for i in range(n):
            t = elem(at + i)
            tot.append(t * (1 << (8 * i)))
        ctx.fact(z3.Sum(tot) == lift(val))
        d, c = linform(z3.Sum(tot))
        ctx.abbrev[frozenset((k, v[1]) for k, v in d.items())] = val
        ctx.keep.append((tot, d))
    field(2, 4, length)
    field(18, 4, w)
    field(22, 4, h)
    consts = {0: 66, 1: 77, 6: 0, 7: 0, 8: 0, 9: 0, 10: hdr & 255, 11: hdr >> 8, 12: 0, 13: 0, 28: bits}
    for k, v in consts.items():
        ctx.fact(f(z3.IntVal(k)) == v)
        known[k] = v
    b.base = elem
    b.arr = a
    a.bmp = b
    a.entry = elem
    b.length = length
    return a, b


def well_formed(ctx, a, b, label='result'):
    """obligations: a is a well-formed bitmap with geometry b"""
    ctx.prove(lift(a.length) == lift(b.length), f'{label}: length = header + height*rowbytes', 'wf')
    if ctx.logs[0].replaying:
        return
    consts = {0: 66, 1: 77, 6: 0, 7: 0, 8: 0, 9: 0, 10: b.hdr & 255, 11: b.hdr >> 8, 12: 0, 13: 0, 28: b.bits}
    ctx.prove(and_(*[eqv(a.view(k), v) for k, v in consts.items()]), f'{label}: constant header fields', 'wf')
    for at, val, nm in ((2, b.length, 'file size'), (18, b.w, 'width'), (22, b.h, 'height')):
        ctx.prove(unlift(lift(a.view(at)) + 256 * lift(a.view(at + 1)) + 65536 * lift(a.view(at + 2)) + 16777216 * lift(a.view(at + 3))) == lift(val)
                  if True else None, f'{label}: {nm} field', 'wf')


def eqv(a, b):
    r = lift(a) == lift(b)
    return unlift(r)


def header_frame(ctx, a, entry, hdr, label='header and palette unchanged'):
    j = ctx.fresh('jh')
    ctx.push()
    try:
        ctx.solver.add(j >= 0, j < hdr)
        ctx.prove(lift(a.view(j)) == lift(entry(j)), label, 'frame')
    except PathEnd:
        pass
    finally:
        ctx.pop()


def conc_bmp(model, b, cap=300000):
    """concrete bitmap from a solver model (None if too large)"""
    ev = lambda t: model.eval(lift(t), model_completion=True).as_long()
    w, h = ev(b.w), ev(b.h)
    n = HDR[b.bits] + h * (4 * ((w * b.bits + 31) // 32))
    if n > cap or n < 0:
        return None
    out = array('B', [0] * n)
    for j in range(n):
        try:
            out[j] = ev(b.fun(z3.IntVal(j))) & 255
        except Exception:
            out[j] = 0
    return fix_header(out, w, h, b.bits)


def fix_header(out, w, h, bits):
    n = len(out)
    out[0:2] = array('B', b'BM')
    out[2:10] = array('B', n.to_bytes(8, 'little'))
    out[10:14] = array('B', HDR[bits].to_bytes(4, 'little'))
    out[14:18] = array('B', (40).to_bytes(4, 'little'))
    out[18:22] = array('B', w.to_bytes(4, 'little'))
    out[22:26] = array('B', h.to_bytes(4, 'little'))
    out[28] = bits
    return out
