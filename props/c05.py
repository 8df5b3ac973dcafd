"""C05: saving and loading are byte exact; missing and foreign files are refused."""
import os
import tempfile
import shutil
from .common import *
from .contracts import *
from .files import *
PROPERTY = 'C05'
ASSUMPTIONS = [ASSUMED_FS, 'ensurePaintWrapperInPath changes only the PATH variable of the process']
FSR = {**REG, **FSREG}


def p_save(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        fs = ctx.ghost['fs'] = FS(ctx)
        if ctx.decide(ctx.fresh_bool('existed')):
            m = z3.Int('oldlen')
            ctx.fact(m >= 0)
            f = z3.Function('oldfile', I, I)
            fs.put('out.bmp', m, lambda j: f(lift(j)))
        ctx.call(B.saveBMP, ['out.bmp', a])
        ctx.prove(fs.writes == ['out.bmp'], 'exactly the named file is written')
        n, v = fs.files['out.bmp']
        same_bytes(ctx, n, v, b.length, b.base, 'the file holds the bitmap')
        same_bytes(ctx, a.length, a.view, b.length, b.base, 'the bitmap is not changed')
        r = ctx.call(B.loadBMP, ['out.bmp'])
        same_bytes(ctx, r.length, r.view, b.length, b.base, 'loading gives the saved bytes back')
        ctx.prove(fs.writes == ['out.bmp'], 'loading writes nothing')
    return run


def p_missing(ctx):
    fs = ctx.ghost['fs'] = FS(ctx)
    r = ctx.call(B.loadBMP, ['none.bmp'])
    ctx.prove(r is None, 'a missing file gives no image')
    ctx.prove(not fs.reads and not fs.writes, 'and touches nothing')


def p_foreign(short):
    def run(ctx):
        fs = ctx.ghost['fs'] = FS(ctx)
        f = z3.Function('file', I, I)

        def view(j):
            t = f(lift(j))
            ctx.fact_once(('fb', lift(j).get_id()), lambda: z3.And(t >= 0, t <= 255))
            ctx.keep.append((t, j))
            return t
        if short is None:
            n = z3.Int('n')
            ctx.fact(z3.And(n >= 10, z3.Or(f(0) != 66, f(1) != 77)))
        else:
            n = short
            ctx.fact(z3.Or(f(0) != 66, f(1) != 77) if short > 1 else True)
        fs.put('x.bmp', n, view)
        r = ctx.call(B.loadBMP, ['x.bmp'])
        ctx.prove(isinstance(r, Arr) and eqv(r.length, 0), 'a file without the signature gives no image bytes')
        ctx.prove(not fs.writes, 'nothing is written')
    return run


# ---- concrete ---------------------------------------------------------------
def conc_io(d, b, prev):
    inputs = dict(bmp=desc(b), previous=None if prev is None else len(prev))
    p = os.path.join(d, 'f.bmp')
    if os.path.exists(p):
        os.remove(p)
    if prev is not None:
        with open(p, 'wb') as f:
            f.write(prev)
    b0 = b[:]
    must(call(B.saveBMP, p, b), 'saveBMP', inputs)
    if b != b0:
        raise Violation('saveBMP changed the bitmap', inputs)
    with open(p, 'rb') as f:
        got = f.read()
    if got != bytes(b0):
        raise Violation(f'the saved file has {len(got)} bytes and differs from the bitmap of {len(b0)} bytes', inputs)
    r = must(call(B.loadBMP, p), 'loadBMP', inputs)
    if not isinstance(r, array) or r != b0:
        raise Violation('loading gives other bytes than were saved', inputs)
    with open(p, 'rb') as f:
        if f.read() != got:
            raise Violation('loading changed the file', inputs)
    if os.listdir(d) != ['f.bmp']:
        raise Violation(f'other files appeared: {os.listdir(d)}', inputs)


def conc_bad(d, content):
    inputs = dict(content=None if content is None else content[:80].hex())
    p = os.path.join(d, 'f.bmp')
    if os.path.exists(p):
        os.remove(p)
    if content is not None:
        with open(p, 'wb') as f:
            f.write(content)
    r = call(B.loadBMP, p)
    if r[0] == 'ok' and r[1] is not None and len(r[1]):
        raise Violation(f'loading {"a missing file" if content is None else "a file without the signature"} returned {len(r[1])} bytes', inputs)
    if r[0] == 'hang' or (r[0] == 'exc' and content is None):
        raise Violation(f'loading failed with {r}', inputs)
    if content is not None:
        with open(p, 'rb') as f:
            if f.read() != content:
                raise Violation('loading changed the file', inputs)


def b_io(X):
    d = tempfile.mkdtemp(prefix='c05_')
    try:
        big = [(300, 300, 24), (257, 130, 8), (1000, 90, 24), (5000, 70, 1)]
        for w, h, bits in big:
            conc_io(d, mkbmp(w, h, bits, X.rng), None)
            X.case((w, h, bits))
        # a size with bytes set in all four places of the size field
        b = B.newBMP(2400, 2400, 24)
        conc_io(d, b, None)
        for c in (None, b'', b'B', b'BM', b'MB' + bytes(100), b'BA' + bytes(100), bytes(60), b'bm' + bytes(200), b'BM' + bytes(60), b'\x89PNG' + bytes(100)):
            conc_bad(d, c)
            X.case(('bad', c))
        while X.more() and X.cases < X.n(4000, 40000):
            w, h = dims(X.rng, 0, 24)
            bits = X.rng.choice(BITS)
            b = mkbmp(w, h, bits, X.rng)
            conc_io(d, b, X.rng.choice([None, b'', bytes(len(b) + 50), b'x' * 7]))
            X.case((w, h, bits, bytes(b)[-4:]), f'{bits} bit {w}x{h} over earlier content')
            c = bytearray(bytes(b))
            c[X.rng.randrange(2)] ^= 1 << X.rng.randrange(8)
            conc_bad(d, bytes(c))
    finally:
        shutil.rmtree(d)


def replay(i):
    d = tempfile.mkdtemp(prefix='c05_')
    try:
        if i.get('bmp') is not None:
            for prev in (None, b'', bytes(100000)):
                conc_io(d, i['bmp'], prev)
        for c in (None, b'', b'B', b'XY' + bytes(100), b'BX' + bytes(100), b'XM' + bytes(100)):
            conc_bad(d, c)
    finally:
        shutil.rmtree(d)


def _ghost(bits):
    def run(ctx):
        return p_save(bits)(ctx)
    return run


PROOFS = [Proof(f'save then load, {_b} bit', ['BITMAPlib.saveBMP', 'BITMAPlib.loadBMP', 'chartools.char2int', 'fileutils.checklink'], p_save(_b), registry=FSR,
                inputs=lambda ctx, m: dict(bmp=mkbmp(5, 4, 24, random.Random(1))), replay=replay) for _b in BITS]
PROOFS += [Proof('load of a missing file', ['BITMAPlib.loadBMP', 'fileutils.checklink'], p_missing, registry=FSR, inputs=lambda ctx, m: {}, replay=replay)]
PROOFS += [Proof(f'load of a file without the signature ({"10 bytes or more" if n is None else str(n) + " bytes"})', ['BITMAPlib.loadBMP'], p_foreign(n), registry=FSR,
                 inputs=lambda ctx, m: {}, replay=replay) for n in (None, 0, 1, 2, 5)]
BOUNDED = [Bounded('save and load, concrete', b_io, 'random bitmaps up to 40x40 and some of up to 17 MB, earlier contents, foreign files', ['BITMAPlib.saveBMP', 'BITMAPlib.loadBMP'], quick=12, thorough=60)]
