"""C18: integer fields round-trip little-endian, other bytes untouched."""
from .common import *
from .contracts import *
from pythonbmp import inttools as T
PROPERTY = 'C18'
ASSUMPTIONS = ['field widths 1..8 bytes are proved one by one (every width the file format uses); wider fields are only in the bounded part']
WIDTHS = range(1, 9)


def value(ctx, cnt):
    """an arbitrary value below 256^cnt, given by its base-256 digits (every such value has exactly one such form)"""
    dig = [z3.Int(f'd{i}') for i in range(cnt)]
    ctx.fact(z3.And(*[z3.And(t >= 0, t <= 255) for t in dig]))
    return z3.Sum([t * 256**i for i, t in enumerate(dig)]), dig


def p_write(cnt):
    def run(ctx):
        off, n = z3.Ints('off n')
        v, dig = value(ctx, cnt)
        ctx.fact(z3.And(off >= 0, n >= off + cnt))
        a = ctx.mk('B', length=n, view=None)
        f = z3.Function('buf', I, I)

        def elem(j):
            t = f(lift(j))
            ctx.fact_once(('bufbyte', lift(j).get_id()), lambda: z3.And(t >= 0, t <= 255))
            ctx.keep.append(t)
            return t
        a.set_view(elem)
        ctx.call(T.writeint, [off, cnt, a, v])
        ctx.prove(eqv(a.length, n), 'buffer length unchanged')
        for i in range(cnt):
            ctx.prove(lift(a.view(unlift(off + i))) == dig[i], f'byte {i} of the field is digit {i} of the value')
        j = ctx.fresh('j')
        ctx.push()
        ctx.solver.add(z3.And(j >= 0, j < n, z3.Or(j < off, j >= off + cnt)))
        ctx.prove(lift(a.view(j)) == elem(j), 'bytes outside the field unchanged', 'frame')
        ctx.pop()
        ctx.prove(lift(ctx.call(T.readint, [off, cnt, a])) == v, 'reading the field returns the value')
    return run


def p_read(cnt):
    def run(ctx):
        off, n = z3.Ints('off n')
        ctx.fact(z3.And(off >= 0, n >= off + cnt))
        f = z3.Function('buf', I, I)
        a = ctx.mk('B', length=n, view=lambda j: f(lift(j)))
        ctx.fact(z3.And(*[z3.And(f(off + i) >= 0, f(off + i) <= 255) for i in range(cnt)]))
        r = ctx.call(T.readint, [off, cnt, a])
        ctx.prove(lift(r) == z3.Sum([f(off + i) * 256**i for i in range(cnt)]), 'value is the little-endian sum of the bytes')
    return run


def p_buf(cnt):
    def run(ctx):
        v, dig = value(ctx, cnt)
        a = ctx.call(T.int2buf, [cnt, v])
        ctx.prove(eqv(a.length, cnt), 'buffer has the requested width')
        for i in range(cnt):
            ctx.prove(lift(a.view(i)) == dig[i], f'byte {i}')
        ctx.prove(lift(ctx.call(T.buf2int, [a])) == v, 'buffer converts back to the value')
    return run


def conc(off, cnt, v, tail, seed=0):
    rng = random.Random(f'{off}/{cnt}/{v}/{tail}/{seed}')
    buf = array('B', [rng.randrange(256) for _ in range(off + cnt + tail)])
    inputs = dict(offset=off, cnt=cnt, value=v, buffer=bytes(buf).hex())
    exp = bytearray(buf)
    exp[off:off + cnt] = v.to_bytes(cnt, 'little')
    b = buf[:]
    must(call(T.writeint, off, cnt, b, v), 'writeint', inputs)
    if bytes(b) != bytes(exp):
        raise Violation(f'writeint wrote {bytes(b).hex()}, expected {bytes(exp).hex()}', inputs)
    for src in (b, buf):
        e = int.from_bytes(bytes(src[off:off + cnt]), 'little')
        r = must(call(T.readint, off, cnt, src), 'readint', inputs)
        if r != e:
            raise Violation(f'readint returned {r}, stored {e}', inputs)
    i2 = must(call(T.int2buf, cnt, v), 'int2buf', inputs)
    if bytes(i2) != v.to_bytes(cnt, 'little'):
        raise Violation(f'int2buf returned {bytes(i2).hex()}', inputs)
    r = must(call(T.buf2int, i2), 'buf2int', inputs)
    if r != v:
        raise Violation(f'buf2int(int2buf({v})) = {r}', inputs)


def b_codec(X):
    for cnt in range(1, 17):
        vs = {0, 1, 255, 256**cnt - 1, 256**(cnt - 1), 256**cnt // 2} | {255 << (8 * i) for i in range(cnt)} | {1 << i for i in range(8 * cnt)}
        for v in sorted(x for x in vs if x < 256**cnt):
            for off, tail in ((0, 0), (0, 3), (5, 0), (18, 30), (300, 2)):
                conc(off, cnt, v, tail)
                X.case((cnt, v, off))
    while X.more() and X.cases < X.n(20000, 300000):
        cnt = X.rng.randint(1, 12)
        v = X.rng.randrange(256**cnt)
        off = X.rng.choice([0, X.rng.randrange(80), X.rng.randrange(2000)])
        conc(off, cnt, v, X.rng.randrange(9))
        X.case((cnt, v, off), f'width {cnt} offset {off} value {v}')


def replay(i):
    conc(min(i.get('off', 0), 5000), i['cnt'], max(0, i.get('v', 0)) % 256**i['cnt'], 3)
    for v in (255 << 8 * (i['cnt'] - 1), 256**i['cnt'] - 1, 0x0807060504030201 % 256**i['cnt']):
        conc(min(i.get('off', 0), 5000), i['cnt'], v, 3)


PROOFS = []
for _c in WIDTHS:
    inp = bmp_inputs(None, v=z3.Sum([z3.Int(f'd{i}') * 256**i for i in range(_c)]), off=z3.Int('off'), cnt=_c)
    PROOFS += [Proof(f'writeint then readint, {_c} bytes', ['inttools.writeint', 'inttools.readint'], p_write(_c), inputs=inp, replay=replay, hints=lambda c: [[z3.Int('off') < 20]]),
               Proof(f'readint, {_c} bytes', ['inttools.readint'], p_read(_c), inputs=inp, replay=replay, hints=lambda c: [[z3.Int('off') < 20]]),
               Proof(f'int2buf then buf2int, {_c} bytes', ['inttools.int2buf', 'inttools.buf2int'], p_buf(_c), inputs=inp, replay=replay)]
BOUNDED = [Bounded('integer codec, concrete', b_codec, 'field widths 1..16, corner values and random values, offsets up to 2000', ['inttools.writeint', 'inttools.readint', 'inttools.int2buf', 'inttools.buf2int'], quick=12, thorough=60)]
