"""C11: enlarging and upgrading keep the appearance of the image."""
import random
from .common import *
from .contracts import *
import pythonbmp.bufresize as RS
import pythonbmp.buffersplit as SP
PROPERTY = 'C11'
ASSUMPTIONS = ['a sequence that is split has at least as many elements as parts (a shorter one gives parts of different lengths)',
               'enlarging is proved for the factors 1 to 4 and every image; other factors (up to 9) are bounded checks',
               'rows given to the row helpers hold whole pixels (24 bit: a multiple of three bytes) and whole bytes of unpacked elements']
RSM, SPM = 'pythonbmp.bufresize', 'pythonbmp.buffersplit'
FACTORS = (1, 2, 3, 4)


# ---- rows -------------------------------------------------------------------

def row_element(ctx, v, n, bits):
    """byte j of the row v (a view of its bytes) enlarged n times"""
    if bits == 8:
        return lambda j: v(unlift(lift(j) / n))
    if bits == 24:
        return lambda j: v(unlift(3 * (lift(j) / (3 * n)) + lift(j) % 3))
    per = 8 // bits

    def one(j):
        j = lift(j)
        # byte m*n + t (t < n) of the new row: its pixels come from byte m of the old one
        m, out = j / n, None
        s = v(unlift(m))
        o = bits8(ctx, s) if bits == 1 else None
        for t in range(n):
            src = [(per * t + i) // n for i in range(per)]
            if bits == 4:
                hi, lo = lift(s) / 16, lift(s) % 16
                new = 16 * (lo if src[0] else hi) + (lo if src[1] else hi)
            else:
                new = [o[7 - src[7 - i]] for i in range(8)]
                new = z3.Sum([lift(q) * (1 << i) for i, q in enumerate(new)]) if ctx.ghost.get('sum8') else lift(mk8(ctx, new))
            out = new if out is None else z3.If(j % n == t, new, out)
        return unlift(out)
    return one


def a_row(ctx, name='buf', per=1):
    n = z3.Int('n' + name)
    ctx.fact(n >= 0)
    f = z3.Function(name, I, I)
    v = byte_view(ctx, f)
    ln = n if per == 1 else per * n
    return ctx.mk('B', length=ln, view=v), v, ln


class Out(LoopSpec):
    """the list the function builds: after k rounds per*k elements, element j is f(j)"""
    def __init__(self, f, per):
        self.f, self.per = f, per

    def arr(self, L, a, k):
        if a.kind != 'list':
            return None
        return ArrSpec(view=self.f, length=unlift(self.per * lift(k)))


def each(ctx, n, thunk):
    """prove thunk(j) for every 0 <= j < n"""
    j = z3.Int('j')
    ctx.push()
    try:
        ctx.solver.add(j >= 0, j < lift(n))
        if ctx.check() != z3.unsat:
            thunk(j)
    except PathEnd:
        pass
    finally:
        ctx.pop()


def is_row(ctx, r, kind, n, f, what):
    ctx.prove(isinstance(r, Arr) and r.kind == kind, f'{what}: a {"byte array" if kind == "B" else "list"}')
    ctx.prove(eqv(r.length, n), f'{what}: length')
    each(ctx, n, lambda j: ctx.prove(lift(r.view(j)) == lift(f(j)), f'{what}: every element'))


def same_arg(ctx, a, v, n, what):
    ctx.prove(eqv(a.length, n), f'{what}: the argument keeps its length')
    each(ctx, n, lambda j: ctx.prove(lift(a.view(j)) == lift(v(j)), f'{what}: the argument is unchanged'))


def p_row(bits, n):
    fn = {1: RS.resize1bitbufNtimesbigger, 4: RS.resize4bitbufNtimesbigger, 8: RS.resize8bitbufNtimesbigger, 24: RS.resize24bitbufNtimesbigger}[bits]

    def run(ctx):
        ctx.ghost['bituf'] = ctx.ghost['sum8'] = bits == 1    # the bytes of the row as the sum of their bits, which is what mk8 means
        a, v, ln = a_row(ctx, per=3 if bits == 24 else 1)
        f = row_element(ctx, v, n, bits)
        if bits in (8, 1):
            ctx.specs.append(lambda L: Out(f, n))
        r = ctx.call(fn, [a, n])
        is_row(ctx, r, 'B', unlift(n * lift(ln)), f, 'enlarged row')
        same_arg(ctx, a, v, ln, 'enlarged row')
    return run


def nibble(v):
    return lambda p: unlift(z3.If(lift(p) % 2 == 1, lift(v(unlift(lift(p) / 2))) % 16, lift(v(unlift(lift(p) / 2))) / 16))


def p_unpack(n):
    def run(ctx):
        a, v, ln = a_row(ctx)
        f = nibble(v)
        g = f if n is None else (lambda p: f(unlift(lift(p) / n)))
        ctx.specs.append(lambda L: Out(g, 2 * (n or 1)))
        r = ctx.call(RS.unpack4bitbuf, [a]) if n is None else ctx.call(RS.unpack4bitbufresizeNtimesbigger, [a, n])
        is_row(ctx, r, 'list', unlift(2 * (n or 1) * lift(ln)), g, 'unpacked row')
        same_arg(ctx, a, v, ln, 'unpacked row')
    return run


def p_pack(ctx):
    n = z3.Int('nbuf')
    ctx.fact(n >= 0)
    f = z3.Function('nib', I, I)

    def v(j):
        t = f(lift(j))
        ctx.fact_once(('nb', t.get_id()), z3.And(t >= 0, t <= 15))
        ctx.keep.append(t)
        return t
    a = ctx.mk('list', length=2 * n, view=v)
    g = lambda j: unlift(16 * lift(v(unlift(2 * lift(j)))) + lift(v(unlift(2 * lift(j) + 1))))
    ctx.specs.append(lambda L: Out(g, 1))
    r = ctx.call(RS.pack4bitbuf, [a])
    is_row(ctx, r, 'list', n, g, 'packed row')
    same_arg(ctx, a, v, 2 * n, 'packed row')


def p_packunpack(ctx):
    a, v, ln = a_row(ctx)
    r = ctx.call(RS.pack4bitbuf, [ctx.call(RS.unpack4bitbuf, [a])])
    is_row(ctx, r, 'list', ln, v, 'unpacking and packing gives back the row')


def p_packbits(m):
    """m bits (a multiple of 8) packed most significant first"""
    def run(ctx):
        ctx.ghost['bituf'] = True
        b = z3.Ints(' '.join(f'bit_{i}' for i in range(m)))
        for t in b:
            ctx.fact(z3.And(t >= 0, t <= 1))
        r = ctx.call(RS.packbitlisttobuf, [tuple(b)])
        ctx.prove(eqv(r.length, m // 8), 'packed bits: one byte for eight bits')
        for i in range(m // 8):
            ctx.prove(lift(r.view(i)) == z3.Sum([b[8 * i + k] * (1 << (7 - k)) for k in range(8)]), 'packed bits: most significant first')
    return run


def p_split(name, n, *args):
    def run(ctx):
        m = z3.Int('m')
        ctx.fact(m >= n)
        f = z3.Function('el', I, I)
        # a sequence that is not shorter than the number of parts, its length need not be a multiple
        for kind, v in (('list', lambda j: f(lift(j))), ('B', byte_view(ctx, f))):
            a = ctx.mk(kind, length=m, view=v)
            r = ctx.call(getattr(SP, name), [a, *args])
            ctx.prove(eqv(r.length, n), f'{name}: number of parts')
            for i in range(n):
                p = r.view(i)
                ctx.prove(z3.And(lift(p.length) * n <= m, lift(p.length) * n > m - n), f'{name}: every part has the same number of elements')
                each(ctx, p.length, lambda j: ctx.prove(lift(p.view(j)) == lift(v(unlift(n * j + i))), f'{name}: part i holds every n-th element from the i-th, in order'))
            same_arg(ctx, a, v, m, name)
    return run


def c_unpack4(ctx, buf):
    """requires bytes; ensures the list of their nibbles, high one first     (proved: C11)"""
    if not isinstance(buf, Arr) or buf.kind not in ('B', 'bytes'):
        return NotImplemented
    return ctx.mk('list', length=unlift(2 * lift(buf.length)), view=nibble(buf.snapshot()))


def c_unpack4resize(ctx, buf, n):
    """requires bytes, n >= 1; ensures the list of their nibbles, each n times     (proved for n 1..4: C11)"""
    if not isinstance(buf, Arr) or buf.kind not in ('B', 'bytes') or n not in FACTORS:
        return NotImplemented
    f = nibble(buf.snapshot())
    return ctx.mk('list', length=unlift(2 * n * lift(buf.length)), view=lambda p: f(unlift(lift(p) / n)))


def c_pack4(ctx, u):
    """requires an even number of nibbles; ensures the bytes they make     (proved: C11)"""
    if not isinstance(u, Arr):
        return NotImplemented
    q = ctx.fresh('half')
    n = lift(u.length)
    ctx.prove(n % 2 == 0, f'pack4bitbuf precondition: whole bytes at {ctx.where()}', 'pre')
    j = ctx.fresh('jn')
    v = u.snapshot()
    ctx.push()
    ctx.solver.add(j >= 0, j < n)
    ctx.prove(z3.And(lift(v(j)) >= 0, lift(v(j)) <= 15), f'pack4bitbuf precondition: nibbles at {ctx.where()}', 'pre')
    ctx.pop()
    return ctx.mk('list', length=unlift(n / 2), view=lambda j: unlift(16 * lift(v(unlift(2 * lift(j)))) + lift(v(unlift(2 * lift(j) + 1)))))


def c_resize8(ctx, buf, n):
    """requires bytes; ensures every byte n times, in order     (proved for n 1..4: C11)"""
    if not isinstance(buf, Arr) or n not in FACTORS:
        return NotImplemented
    return ctx.mk('B', length=unlift(n * lift(buf.length)), view=row_element(ctx, buf.snapshot(), n, 8))


def c_resize(ctx, buf, n, bits):
    """requires a row of whole pixels; ensures the row enlarged n times     (proved for n 1..4: C11)"""
    if not isinstance(buf, Arr) or n not in FACTORS:
        return NotImplemented
    if bits == 24:
        ctx.prove(lift(buf.length) % 3 == 0, f'resizebufNtimesbigger precondition: whole pixels at {ctx.where()}', 'pre')
    return ctx.mk('B', length=unlift(n * lift(buf.length)), view=row_element(ctx, buf.snapshot(), n, bits))


def p_dispatch(bits, n):
    def run(ctx):
        ctx.ghost['bituf'] = bits == 1
        a, v, ln = a_row(ctx, per=3 if bits == 24 else 1)
        r = ctx.call(RS.resizebufNtimesbigger, [a, n, bits])
        is_row(ctx, r, 'B', unlift(n * lift(ln)), row_element(ctx, v, n, bits), 'enlarged row')
    return run


# ---- images -----------------------------------------------------------------

class BigRows(LoopSpec):
    """the n*k lowest rows of the new image hold the k lowest rows of the source, enlarged"""
    def __init__(self, b, nb, n, cn):
        self.p = (b, nb, n, cn)

    def arr(self, L, a, k):
        b, nb, n, cn = self.p
        if a.bmp is not nb:
            return None
        ctx, e, k = L.ctx, L.entry(a), lift(k)
        ctx.register_mult(lift(nb.R), n * k)
        ctx.register_mult(lift(b.R), k)

        def fn(row, col, j):
            q = row / n
            v = row_element(ctx, lambda c: bmp_at(ctx, b, b.base, q, lift(c)), n, b.bits)(col)
            return z3.If(z3.And(row < n * k, col < n * cn), lift(v), lift(e(j)))
        return ArrSpec(view=rcview(ctx, nb, e, fn))


def bytecount(ctx, b):
    """number of bytes that hold a row's pixels"""
    if b.bits >= 8:
        return lift(b.w) * (b.bits // 8)
    n = 8 // b.bits
    return (lift(b.w) + n - 1) / n


def p_big(bits, n):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        ctx.specs.append(lambda L: BigRows(b, newest(ctx), n, bytecount(ctx, b)))
        r = ctx.call(B.resizeNtimesbigger, [src, n])
        nb = newest(ctx)
        ctx.prove(r is nb.arr, 'returns the new image')
        ctx.prove(z3.And(lift(nb.w) == n * lift(b.w), lift(nb.h) == n * lift(b.h)), 'n times the width and height')
        well_formed(ctx, r, nb)
        same_palette(ctx, r, nb, src, b.base)
        source_same(ctx, src, b)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        if bits == 4:
            ctx.decide(x % 2 == 0)
        for dy in range(n):
            for dx in range(n):
                prove_pixel(ctx, nb, r.view, n * x + dx, n * y + dy, b.pixel(ctx, b.base, x, y), 'every source pixel is a block of its colour')
    return run


def source_same(ctx, src, b):
    j = z3.Int('j')
    ctx.push()
    ctx.solver.add(j >= 0, j < lift(b.length))
    ctx.prove(lift(src.view(j)) == lift(b.base(j)), 'the source is unchanged')
    ctx.pop()


def rgb_element(ctx, v, pal, bits):
    """byte j of the row v converted to blue, green, red"""
    n = {8: 1, 4: 2, 1: 8}[bits]

    def f(j):
        p, ch = lift(j) / 3, lift(j) % 3
        s = lift(v(unlift(p / n)))
        if bits == 8:
            c = s
        elif bits == 4:
            c = z3.If(p % 2 == 1, s % 16, s / 16)
        else:
            o = bits8(ctx, unlift(s))
            c = lift(o[7])
            for i in range(1, 8):
                c = z3.If(p % 8 == i, lift(o[7 - i]), c)
        return pal(unlift(4 * c + ch))
    return f


def p_convert(bits):
    def run(ctx):
        ctx.ghost['bituf'] = bits == 1
        a, v, ln = a_row(ctx)
        pv = byte_view(ctx, z3.Function('pal', I, I))
        pal = ctx.mk('B', length=4 << bits, view=pv)
        f = rgb_element(ctx, v, pv, bits)
        per = 24 // bits
        ctx.specs.append(lambda L: Out(f, per))
        r = ctx.call(B.convertbufto24bit, [a, pal, bits])
        is_row(ctx, r, 'B', unlift(per * lift(ln)), f, 'converted row')
        same_arg(ctx, a, v, ln, 'converted row')
    return run


def c_convert(ctx, buf, pal, bits):
    """requires a row and its palette; ensures blue, green, red of every pixel in order     (proved: C11)"""
    if not isinstance(buf, Arr) or not isinstance(pal, Arr) or bits not in (1, 4, 8):
        return NotImplemented
    ctx.prove(eqv(pal.length, 4 << bits), f'convertbufto24bit precondition: whole palette at {ctx.where()}', 'pre')
    return ctx.mk('B', length=unlift((24 // bits) * lift(buf.length)), view=rgb_element(ctx, buf.snapshot(), pal.snapshot(), bits))


class UpRows(LoopSpec):
    """the k lowest rows of the new image hold the colours of the k lowest rows of the source"""
    def __init__(self, b, nb):
        self.p = (b, nb)

    def arr(self, L, a, k):
        b, nb = self.p
        if a.bmp is not nb:
            return None
        ctx, e, k = L.ctx, L.entry(a), lift(k)
        ctx.register_mult(lift(nb.R), k)
        ctx.register_mult(lift(b.R), k)

        def fn(row, col, j):
            v = rgb_element(ctx, lambda c: bmp_at(ctx, b, b.base, row, lift(c)), lambda c: b.base(unlift(54 + lift(c))), b.bits)(col)
            return z3.If(z3.And(row < k, col < 3 * lift(b.w)), lift(v), lift(e(j)))
        return ArrSpec(view=rcview(ctx, nb, e, fn))


def p_up(bits):
    def run(ctx):
        src, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        ctx.ghost['bituf'] = True
        ctx.specs.append(lambda L: UpRows(b, newest(ctx)))
        r = ctx.call(B.upgradeto24bitimage, [src])
        if bits == 24:
            ctx.prove(r is src, '24 bit: the image itself')
            return source_same(ctx, src, b)
        nb = newest(ctx)
        ctx.prove(r is nb.arr and nb.bits == 24, 'returns a new 24 bit image')
        ctx.prove(z3.And(lift(nb.w) == lift(b.w), lift(nb.h) == lift(b.h)), 'same size')
        well_formed(ctx, r, nb)
        source_same(ctx, src, b)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        c = lift(b.pixel(ctx, b.base, x, y))
        o = lift(nb.off(ctx, x, y))
        for ch in range(3):
            ctx.prove(lift(r.view(unlift(o + ch))) == lift(b.base(unlift(54 + 4 * c + ch))), 'every pixel shows its palette colour')
    return run


# ---- concrete oracle --------------------------------------------------------

def conc_big(b0, n):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0), n=n)
    b = b0[:]
    r = must(call(B.resizeNtimesbigger, b, n), f'enlarging {n} times', inputs)
    if b != b0:
        raise Violation(f'enlarging {n} times changed its source', inputs)
    e = wf(r, w * n, h * n, bits)
    if e:
        raise Violation(f'enlarging a {w}x{h} image at {bits} bits {n} times: malformed result: {e}', inputs)
    if palette(r) != palette(b0):
        raise Violation(f'enlarging {n} times: the palette differs from the source', inputs)
    g0, g = grid(b0), grid(r)
    for y in range(h * n):
        for x in range(w * n):
            if g[y][x] != g0[y // n][x // n]:
                raise Violation(f'enlarging a {w}x{h} image at {bits} bits {n} times: pixel ({x},{y}) is {g[y][x]}, the source pixel ({x // n},{y // n}) is {g0[y // n][x // n]}', inputs)


def conc_up(b0):
    w, h, bits = geom(b0)
    inputs = dict(bmp=desc(b0))
    b = b0[:]
    r = must(call(B.upgradeto24bitimage, b), 'upgrading to 24 bit', inputs)
    if b != b0:
        raise Violation('upgrading to 24 bit changed its source', inputs)
    e = wf(r, w, h, 24)
    if e:
        raise Violation(f'upgrading a {w}x{h} image at {bits} bits: malformed result: {e}', inputs)
    g0, g, p = grid(b0), grid(r), palette(b0)
    for y in range(h):
        for x in range(w):
            c = g0[y][x]
            exp = c if bits == 24 else p[c][0] << 16 | p[c][1] << 8 | p[c][2]
            if g[y][x] != exp:
                raise Violation(f'upgrading a {w}x{h} image at {bits} bits: pixel ({x},{y}) shows {g[y][x]:06x}, its colour is {exp:06x}', inputs)


def b_images(X):
    for bits in BITS:
        for w in list(range(1, 18)) + [31, 32, 33]:
            for h in (1, 2):
                b = mkbmp(w, h, bits, X.rng)
                conc_up(b)
                for n in (1, 2, 3, 4, 5):
                    conc_big(b, n)
                X.case((bits, w, h), f'{bits} bit {w}x{h}')
    for bits in BITS:
        for w, h in ((260, 1), (1, 260), (90, 3)):
            b = mkbmp(w, h, bits, X.rng)
            conc_up(b)
            conc_big(b, 3)
    while X.more():
        bits = X.rng.choice(BITS)
        b = mkbmp(*dims(X.rng, bits, 20), bits, X.rng)
        n = X.rng.randint(1, 9)
        conc_up(b)
        conc_big(b, n)
        X.case((bits, geom(b), n))


def expect(what, got, exp, inputs):
    got = must(call(*got), what, inputs)
    lst = [list(p) for p in got] if exp and isinstance(exp[0], list) else list(got)
    if lst != exp:
        raise Violation(f'{what}: gave {lst}, expected {exp}', inputs)


def b_helpers(X):
    R = X.rng

    def one(m):
        buf = [R.randrange(256) for _ in range(m)]
        for mk in (list, lambda v: array('B', v)):
            inputs = dict(buf=buf)
            a = mk(buf)
            expect('altsplitbuf', (SP.altsplitbuf, a), [buf[i::2][:m // 2] for i in range(2)], inputs)
            expect('altsplitbuf3way', (SP.altsplitbuf3way, a), [buf[i::3][:m // 3] for i in range(3)], inputs)
            for n in range(1, min(8, m + 1)):
                expect(f'altsplitbufnway n={n}', (SP.altsplitbufnway, a, n), [buf[i::n][:m // n] for i in range(n)], inputs)
            nib = [v for b in buf for v in (b >> 4, b & 15)]
            bits = [b >> (7 - i) & 1 for b in buf for i in range(8)]
            expect('unpack4bitbuf', (RS.unpack4bitbuf, a), nib, inputs)
            expect('pack4bitbuf', (RS.pack4bitbuf, nib), buf, inputs)
            expect('packbitlisttobuf', (RS.packbitlisttobuf, bits), buf, inputs)
            for n in range(1, 7):
                q = [v for v in nib for _ in range(n)]
                expect('unpack4bitbufresizeNtimesbigger', (RS.unpack4bitbufresizeNtimesbigger, a, n), q, inputs)
                expect('resize4bitbufNtimesbigger', (RS.resizebufNtimesbigger, a, n, 4), [q[i] << 4 | q[i + 1] for i in range(0, len(q), 2)], inputs)
                expect('resize8bitbufNtimesbigger', (RS.resizebufNtimesbigger, a, n, 8), [v for v in buf for _ in range(n)], inputs)
                q = [v for v in bits for _ in range(n)]
                expect('resize1bitbufNtimesbigger', (RS.resizebufNtimesbigger, a, n, 1), [sum(q[i + k] << (7 - k) for k in range(8)) for i in range(0, len(q), 8)], inputs)
                if m % 3 == 0:
                    expect('resize24bitbufNtimesbigger', (RS.resizebufNtimesbigger, a, n, 24), [v for i in range(0, m, 3) for _ in range(n) for v in buf[i:i + 3]], inputs)
                if m:
                    expect('resizebitpattenNtimesbigger', (RS.resizebitpattenNtimesbigger, buf[0], n), [v for v in bits[:8] for _ in range(n)], inputs)
            if list(a) != buf:
                raise Violation('a row helper changed its argument', inputs)
            for bits_ in (1, 4, 8):
                pal = array('B', [R.randrange(256) for _ in range(4 << bits_)])
                px = {1: bits, 4: nib, 8: buf}[bits_]
                expect(f'convertbufto24bit, {bits_} bit', (B.convertbufto24bit, array('B', buf), pal, bits_), [v for c in px for v in pal[4 * c:4 * c + 3]], inputs)
        X.case(m, f'row of {m} bytes')
    for m in list(range(0, 26)) + [63, 64, 255, 256, 257]:
        one(m)
    while X.more():
        one(R.randint(0, 60))


def replay(i):
    for n in FACTORS:
        conc_big(i['bmp'], n)
    conc_up(i['bmp'])


def replay_rows(i):
    X = BoundedRun('quick', 1, 0, 'replay')
    b_helpers(X)


REGR = {(RSM, 'resize8bitbufNtimesbigger'): c_resize8, (RSM, 'unpack4bitbufresizeNtimesbigger'): c_unpack4resize, (RSM, 'pack4bitbuf'): c_pack4}
REGU = {(RSM, 'unpack4bitbuf'): c_unpack4, (RSM, 'pack4bitbuf'): c_pack4}
REGB = {**REG, (LIB, 'newBMP'): c_newBMP, (RSM, 'resizebufNtimesbigger'): c_resize, (LIB, 'convertbufto24bit'): c_convert}
_row = dict(inputs=lambda ctx, m: {}, replay=replay_rows)
PROOFS = [Proof('packing nibbles', ['bufresize.pack4bitbuf'], p_pack, **_row),
          Proof('unpacking nibbles', ['bufresize.unpack4bitbuf'], p_unpack(None), **_row),
          Proof('unpacking and packing', ['bufresize.pack4bitbuf', 'bufresize.unpack4bitbuf'], p_packunpack, registry=REGU, **_row),
          Proof('altsplitbuf', ['buffersplit.altsplitbuf'], p_split('altsplitbuf', 2), **_row),
          Proof('altsplitbuf3way', ['buffersplit.altsplitbuf3way'], p_split('altsplitbuf3way', 3), **_row)]
for _n in (8, 16, 24):
    PROOFS.append(Proof(f'packing {_n} bits', ['bufresize.packbitlisttobuf'], p_packbits(_n), **_row))
for _n in (1, 2, 3, 4, 5, 6):
    PROOFS.append(Proof(f'altsplitbufnway, {_n} parts', ['buffersplit.altsplitbufnway'], p_split('altsplitbufnway', _n, _n), **_row))
for _n in FACTORS:
    PROOFS.append(Proof(f'unpacking nibbles {_n} times', ['bufresize.unpack4bitbufresizeNtimesbigger'], p_unpack(_n), **_row))
    PROOFS.append(Proof(f'8 bit row {_n} times', ['bufresize.resize8bitbufNtimesbigger'], p_row(8, _n), **_row))
    PROOFS.append(Proof(f'4 bit row {_n} times', ['bufresize.resize4bitbufNtimesbigger'], p_row(4, _n), registry=REGR, **_row))
    PROOFS.append(Proof(f'1 bit row {_n} times', ['bufresize.resize1bitbufNtimesbigger', 'bufresize.resizebitpattenNtimesbigger', 'mathlib.enumbits'], p_row(1, _n), **_row))
    PROOFS.append(Proof(f'24 bit row {_n} times', ['bufresize.resize24bitbufNtimesbigger', 'colors.makeBGRbuf', 'mathlib.ravel2D'], p_row(24, _n), registry=REGR, **_row))
    for _b in BITS:
        PROOFS.append(Proof(f'enlarging {_n} times, {_b} bit', ['BITMAPlib.resizeNtimesbigger', 'BITMAPlib.itercopyrect', 'BITMAPlib.copyRGBpal'], p_big(_b, _n), registry=REGB,
                            inputs=bmp_inputs(None), replay=replay, hints=small))
for _b in BITS:
    PROOFS.append(Proof(f'upgrading, {_b} bit', ['BITMAPlib.upgradeto24bitimage', 'BITMAPlib.CopyBMPxydim2newBMP', 'BITMAPlib.getBGRpalbuf', 'BITMAPlib.itercopyrect'], p_up(_b), registry=REGB,
                        inputs=bmp_inputs(None), replay=replay, hints=small))
    if _b < 24:
        PROOFS.append(Proof(f'row to 24 bit, {_b} bit', ['BITMAPlib.convertbufto24bit'], p_convert(_b), **_row))
BOUNDED = [Bounded('enlarging and upgrading, concrete', b_images, 'random bitmaps of all depths up to 40 (some 260) pixels a side, factors up to 9',
                   ['BITMAPlib.resizeNtimesbigger', 'BITMAPlib.upgradeto24bitimage'], quick=15),
           Bounded('row helpers, concrete', b_helpers, 'rows of up to 257 bytes, factors up to 6', ['bufresize.packbitlisttobuf'], quick=8)]
