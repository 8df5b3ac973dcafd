"""C20: a file-to-file operation writes what loading, operating in memory and saving would give, and nothing else."""
import os
import random
import shutil
import tempfile
import time
from .common import *
from .contracts import *
from .files import *
from .c03 import real
with silent():
    from pythonbmp import colors as C, primitives2D as P2, mathlib as ML
PROPERTY = 'C20'

# ---- the operations -------------------------------------------------------------
# file form: (operation in memory, what it takes besides the image, depths it supports (others: nothing is written), does it return a new image)
ALL = (1, 4, 8, 24)
RECT, CIRC = 'x1 y1 x2 y2 ', 'x y r '
TABLE = {'flipXY2file': ('flipXY', '', ALL, True), 'palshift2file': ('palshift', 'n', ALL, False), 'upgradeto24bitimage2file': ('upgradeto24bitimage', '', ALL, True),
         'invertbits2file': ('invertimagebits', '', ALL, False), 'outline2file': ('outline', '', ALL, False), 'outlineregion2file': ('outlineregion', RECT, ALL, False),
         'eraseeverynthhoriline2file': ('eraseeverynthhorizontalline', 'n', ALL, False), 'eraseeverynthhorilineinregion2file': ('eraseeverynthhorilineinregion', RECT + 'n', ALL, False),
         'invertregion2file': ('invertregion', RECT, ALL, False), 'rectangle2file': ('rectangle', RECT + 'color', ALL, False), 'filledrect2file': ('filledrect', RECT + 'color', ALL, False),
         'filledgradrect2file': ('filledgradrect', RECT + 'lum rgb dir fn', ALL, False), 'filleddichromaticgradrect2file': ('filleddichromaticgradrect', RECT + 'c1 c2 dir fn', ALL, False),
         'fern2file': ('fern', RECT + 'color', ALL, False), 'cropBMPandsave': ('crop', RECT, ALL, True),
         'adjustbrightnessinregion2file': ('brightnesseadjto24bitregion', RECT + 'percent', (24,), False), 'adjustthresholdinregion2file': ('thresholdadjto24bitregion', RECT + 'lum', (24,), False),
         'colorfilterinregion2file': ('colorfilterto24bitregion', RECT + 'rgb', (24,), False), 'monofilterinregion2file': ('monofilterto24bitregion', RECT, (24,), False),
         'gammaadjtoregion2file': ('gammaadjto24bitregion', RECT + 'gamma', (24,), False),
         'pixelizenxntofile': ('pixelizenxn', 'n', (24,), True), 'resizeNtimessmaller2file': ('resizeNtimessmaller', 'n', (24,), True), 'resizeNtimesbigger2file': ('resizeNtimesbigger', 'n', (24,), True),
         'horizontalbrightnessgrad2file': ('horizontalbrightnessgradto24bitimage', 'lum', (24,), False), 'verticalbrightnessgrad2file': ('verticalbrightnessgradto24bitimage', 'lum', (24,), False),
         'horizontalbrightnessgradregion2file': ('horizontalbrightnessgradto24bitregion', RECT + 'lum', (24,), False),
         'verticalbrightnessgradregion2file': ('verticalbrightnessgradto24bitregion', RECT + 'lum', (24,), False),
         'monochromecircregion2file': ('monocircle', CIRC, (24,), False), 'colorfiltercircregion2file': ('colorfiltercircregion', CIRC + 'rgb', (24,), False),
         'thresholdadjcircregion2file': ('thresholdadjcircregion', CIRC + 'lum', (24,), False), 'gammacorrectcircregion2file': ('gammacorrectcircregion', CIRC + 'gamma', (24,), False),
         'sphere2file': ('sphere', CIRC + 'rgb fn', (24,), False), 'thickencirclearea2file': ('thickencirclearea', CIRC + 'rgb', (24,), False),
         'brightnessadjcircregion2file': ('brightnessadjcircregion', CIRC + 'percent', (24,), False), 'vertbrightnessgrad2circregion2file': ('vertbrightnessgrad2circregion', CIRC + 'lum', (24,), False),
         'horibrightnessgrad2circregion2file': ('horibrightnessgrad2circregion', CIRC + 'lum', (24,), False),
         'filledcircle2file': ('filledcircle', CIRC + 'color', ALL, False), 'circle2file': ('circle', CIRC + 'color', ALL, False),
         'eraseeverynthhorilineinccircregion2file': ('eraseeverynthhorizontallineinccircregion', CIRC + 'n', ALL, False),
         'magnifyNtimescircregion2file': ('magnifyNtimescircregion', CIRC + 'n', ALL, False), 'pixelizenxncircregion2file': ('pixelizenxncircregion', CIRC + 'n', ALL, False),
         'copycircregion2file': ('copycircregion', CIRC + 'point', ALL, False), 'outlinecircregion2file': ('outlinecircregion', CIRC, ALL, False),
         'flipXYcircregion2file': ('flipXYcircregion', CIRC, ALL, False), 'flipvertcircregion2file': ('flipvertcircregion', CIRC, ALL, False),
         'fliphoricircregion2file': ('fliphoricircregion', CIRC, ALL, False), 'invertbitsincircregion2file': ('invertbitsincircregion', CIRC, ALL, False)}
for _m in ('flipvertical', 'fliphorizontal', 'mirrortop', 'mirrorbottom', 'mirrorleft', 'mirrorright', 'mirrortopleft', 'mirrortopright', 'mirrorbottomleft', 'mirrorbottomright'):
    TABLE[_m + '2file'] = (_m, '', ALL, False)
    if _m.startswith('flip'):
        TABLE[_m + 'region2file'] = (_m + 'region', RECT, ALL, False)
    else:
        TABLE[_m + 'inregion2file'] = (_m + 'inregion', RECT, ALL, False)
        TABLE[_m + 'incircregion2file'] = (_m + 'incircregion', CIRC, ALL, False)
# colour adjustments: a 24-bit image pixel by pixel, a palette image by its palette
ADJ = {'adjustbrightness2file': ('brightnesseadjto24bitimage', 'brightnessadjust', 'percent'), 'thresholdadjust2file': ('thresholdadjto24bitimage', 'thresholdadjust', 'lum'),
       'colorfilter2file': ('colorfilterto24bitimage', 'colorfilter', 'rgb'), 'gammaadj2file': ('gammaadjto24bitimage', 'gammacorrect', 'gamma'),
       'monochrome2file': ('monofilterto24bitimage', 'monochrome', '')}
# images made from parameters and saved
MADE = {f'save{_n}2file': _n for _n in ('ikedaattractor', 'gumowskimiraattractor', 'nattractor', 'peterdejongattractor', 'duffingattractor', 'hopalongattractor', 'symmetriciconattractor',
                                        'cliffordattractor', 'fractaldreamattractor')}
COMPARE = {'imagediff': 'xorvect', 'showsimilarparts': 'andvect'}


# ---- proof -----------------------------------------------------------------------

def key(f):
    return (f.__module__, f.__qualname__)


def params(ctx, spec):
    out = []
    for p in spec.split():
        if p == 'fn':
            out.append(ML.lerp)
        elif p in ('lum', 'point'):
            out.append((z3.Int(p + '_a'), z3.Int(p + '_b')))
        elif p == 'rgb':
            out.append(tuple(z3.Reals('rf gf bf')))
        elif p in ('gamma', 'percent'):
            out.append(z3.Real(p))
        else:
            out.append(z3.Int(p))
    return out


def c_load(ctx, name):
    """requires a file of that name with a bitmap; ensures a new array of its bytes     (proved: C05)"""
    fs = ctx.ghost['fs']
    if name not in fs.files:
        ctx.prove(False, f'the file loaded exists at {ctx.where()}', 'pre')
        return None
    n, v = fs.files[name]
    fs.reads.append(name)
    return ctx.mk('B', length=n, view=v)


def c_save(ctx, name, a):
    """requires an array of bytes; ensures that the file holds exactly these bytes     (proved: C05)"""
    fs = ctx.ghost['fs']
    if not isinstance(a, Arr) or a.kind != 'B':
        ctx.prove(False, f'an image is saved at {ctx.where()}', 'pre')
        return None
    fs.writes.append(name)
    fs.put(name, a.length, a.snapshot())


def same_param(ctx, a, b):
    if isinstance(a, (tuple, Arr)) or isinstance(b, (tuple, Arr)):
        items = lambda v: v.items if isinstance(v, Arr) else list(v) if isinstance(v, tuple) else None
        u, v = items(a), items(b)
        return u is not None and v is not None and len(u) == len(v) and and_(*[same_param(ctx, x, y) for x, y in zip(u, v)])
    if is_sym(a) or is_sym(b):
        if not (is_sym(a) or isinstance(a, (int, float))) or not (is_sym(b) or isinstance(b, (int, float))):
            return False
        return real(a) == real(b)
    return a is b or a == b


def havoc_image(ctx, a):
    """an unknown image in place of a"""
    f = byte_view(ctx, ctx.fresh_fun('result'))
    n = ctx.fresh('newlen')
    ctx.fact(n >= 54)
    a.set_view(lambda j: f(j), n)


def c_operation(op, returns):
    def contract(ctx, a, *args):
        g = ctx.ghost
        if not isinstance(a, Arr) or 'want' not in g:
            return NotImplemented
        ctx.prove('result' not in g, f'{op} is applied once', 'pre')
        same_bytes(ctx, a.length, a.view, g['src'].length, g['src'].base, f'{op} is applied to the image loaded')
        want = g['want']
        ctx.prove(len(args) == len(want), f'{op} is given its parameters', 'pre')
        for i, (u, v) in enumerate(zip(args, want)):
            ctx.prove(same_param(ctx, u, v), f'{op}: parameter {i + 1} is the one given', 'pre')
        r = ctx.mk('B', length=1, view=lambda j: 0) if returns else a
        havoc_image(ctx, r)
        g['result'] = (r.length, r.snapshot())
        return r if returns else None
    contract.__doc__ = f'{op} in memory: some function of the image and the parameters     (see the property of the operation)'
    return contract


def world(ctx, bits):
    a, b = sym_bmp(ctx, bits)
    g = ctx.ghost
    g['src'] = b
    fs = g['fs'] = FS(ctx)
    fs.put('in.bmp', b.length, b.base)
    if ctx.decide(ctx.fresh_bool('existed')):
        m = z3.Int('oldlen')
        ctx.fact(m >= 0)
        f = z3.Function('oldfile', I, I)
        fs.put('out.bmp', m, lambda j: f(lift(j)))
    return b, fs


def written(ctx, b, fs, name, ok=True):
    g = ctx.ghost
    n, v = fs.files['in.bmp']
    ctx.prove(fs.writes == (['out.bmp'] if ok else []), f'{name}: exactly the new file is written, once' if ok else f'{name}: nothing is written')
    same_bytes(ctx, n, v, b.length, b.base, f'{name}: the source file is unchanged')
    if ok:
        ctx.prove('result' in g, f'{name}: the operation is applied')
        n, v = fs.files['out.bmp']
        same_bytes(ctx, n, v, *g['result'], f'{name}: the new file holds the result')


def p_form(name, bits):
    op, spec, depths, returns = TABLE[name]

    def run(ctx):
        b, fs = world(ctx, bits)
        ps = params(ctx, spec)
        ctx.ghost['want'] = ps
        ctx.call(getattr(B, name), ['in.bmp', 'out.bmp', *ps])
        written(ctx, b, fs, name, bits in depths)
    return run


def p_missing(name, n):
    def run(ctx):
        ctx.ghost['fs'] = fs = FS(ctx)
        ctx.call(getattr(B, name), ['in.bmp', 'out.bmp', *n(ctx)])
        ctx.prove(not fs.writes and not fs.reads, f'{name}: a missing source writes nothing')
    return run


def c_palette(ctx, a):
    """returns the palette of the image     (C08)"""
    g = ctx.ghost
    same_bytes(ctx, a.length, a.view, g['src'].length, g['src'].base, 'the palette is that of the image loaded')
    return ctx.mk('list', items=[('entry', i) for i in range(1 << g['src'].bits)])


def c_adjust(fn):
    def contract(ctx, c, *p):
        if not (isinstance(c, tuple) and c[0] == 'entry'):
            return NotImplemented
        ctx.prove(len(p) == len(ctx.ghost['want']) and and_(*[same_param(ctx, u, v) for u, v in zip(p, ctx.ghost['want'])]), f'{fn}: the parameter given', 'pre')
        return ('adjusted', c[1])
    contract.__doc__ = f'{fn} of a colour     (C12)'
    return contract


def c_setpal(ctx, a, pal):
    """replaces the palette of the image     (C08)"""
    g = ctx.ghost
    ctx.prove('result' not in g, 'the palette is replaced once', 'pre')
    same_bytes(ctx, a.length, a.view, g['src'].length, g['src'].base, 'the palette of the image loaded is replaced')
    ctx.prove(isinstance(pal, Arr) and pal.items is not None and [tuple(x) if isinstance(x, tuple) else x for x in pal.items] == [('adjusted', i) for i in range(1 << g['src'].bits)],
              'every palette entry is adjusted', 'pre')
    havoc_image(ctx, a)
    g['result'] = (a.length, a.snapshot())


def p_adjust(name, bits):
    op, fn, spec = ADJ[name]

    def run(ctx):
        b, fs = world(ctx, bits)
        ps = ctx.ghost['want'] = params(ctx, spec)
        ctx.call(getattr(B, name), ['in.bmp', 'out.bmp', *ps])
        written(ctx, b, fs, name)
    return run


def c_edges(ctx, a, t):
    """the points on the edges of the image     (not in scope)"""
    g = ctx.ghost
    same_bytes(ctx, a.length, a.view, g['src'].length, g['src'].base, 'the edges are those of the image loaded')
    ctx.prove(same_param(ctx, t, g['threshold']), 'the threshold given', 'pre')
    return ('edges',)


def c_bounds(ctx, v):
    """the rectangle around the points     (C13)"""
    ctx.prove(v == ('edges',), 'the rectangle is that of the edges', 'pre')
    return ctx.ghost['bounds']


def p_autocrop(ctx):
    b, fs = world(ctx, 24)
    x1, y1, x2, y2 = z3.Ints('x1 y1 x2 y2')
    ctx.ghost['bounds'] = ((x1, y1), (x2, y2))
    ctx.ghost['want'] = [x1, y1, x2 + 1, y2 + 1]
    t = ctx.ghost['threshold'] = z3.Int('threshold')
    ctx.call(B.autocropimg2file, ['in.bmp', 'out.bmp', t])
    written(ctx, b, fs, 'autocropimg2file')


def p_rectbnd(ctx):
    b, fs = world(ctx, 24)
    x1, y1, x2, y2 = z3.Ints('x1 y1 x2 y2')
    ctx.ghost['want'] = [x1, y1, x2 + 1, y2 + 1]
    ctx.call(B.cropBMPandsaveusingrectbnd, ['in.bmp', 'out.bmp', ((x1, y1), (x2, y2))])
    written(ctx, b, fs, 'cropBMPandsaveusingrectbnd')


def c_make(op):
    def contract(ctx, *args):
        g = ctx.ghost
        ctx.prove('result' not in g and len(args) == len(g['want']), f'{op} is given its parameters, once', 'pre')
        for i, (u, v) in enumerate(zip(args, g['want'])):
            ctx.prove(same_param(ctx, u, v), f'{op}: parameter {i + 1} is the one given', 'pre')
        r = ctx.mk('B', length=1, view=lambda j: 0)
        havoc_image(ctx, r)
        g['result'] = (r.length, r.snapshot())
        return r
    contract.__doc__ = f'{op}: some image made from the parameters'
    return contract


def arity(f):
    import inspect
    return len(inspect.signature(f).parameters)


def p_made(name, op):
    def run(ctx):
        g = ctx.ghost
        fs = g['fs'] = FS(ctx)
        g['want'] = [z3.Int(f'p{i}') for i in range(arity(getattr(B, op)))]
        ctx.call(getattr(B, name), ['out.bmp', *g['want']])
        ctx.prove(fs.writes == ['out.bmp'] and 'result' in g, f'{name}: exactly the new file is written, once')
        n, v = fs.files['out.bmp']
        same_bytes(ctx, n, v, *g['result'], f'{name}: the new file holds the image')
    return run


FSR = {('genericpath', 'isfile'): c_isfile, (LIB, 'loadBMP'): c_load, (LIB, 'saveBMP'): c_save}
PROOFS = []
USES = {}
_un = lambda f: getattr(f, '__wrapped__', f)


def wrapper(name):
    """the private wrapper a form goes through, from its code"""
    f = getattr(B, name)
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return sorted(n for n in f.__code__.co_names if n.startswith('_use'))


def under(name):
    return [f'BITMAPlib.{name}', *[f'BITMAPlib.{n}' for n in wrapper(name)]]


OPS = {key(getattr(B, t[0])): c_operation(t[0], t[3]) for t in TABLE.values()}


def only(op, returns):
    """the operation named; any other operation of the table in its place fails its precondition"""
    def other(n):
        def contract(ctx, *args):
            ctx.prove(False, f'{op} is the operation applied, not {n}', 'pre')
        contract.__doc__ = f'not called: {n}'
        return contract
    r = {k: other(k[1]) for k in OPS}
    r[key(getattr(B, op))] = c_operation(op, returns)
    return r


for _n, (_o, _s, _d, _r) in TABLE.items():
    for _b in (8, 24) if _d == (24,) else (24,):
        PROOFS.append(Proof(f'{_n}, {_b} bit', under(_n), p_form(_n, _b), registry={**REG, **FSR, **only(_o, _r)}, hints=small, inputs=lambda ctx, m: {}))
    PROOFS.append(Proof(f'{_n}, missing source', under(_n), p_missing(_n, lambda ctx, s=_s: params(ctx, s)), registry={**REG, **FSR, **only(_o, _r)}, inputs=lambda ctx, m: {}))
for _n, (_o, _f, _s) in ADJ.items():
    for _b in (1, 4, 8, 24):
        PROOFS.append(Proof(f'{_n}, {_b} bit', under(_n), p_adjust(_n, _b), hints=small, inputs=lambda ctx, m: {},
                            registry={**REG, **FSR, key(getattr(B, _o)): c_operation(_o, False), **({key(getattr(C, _f)): c_adjust(_f)}),
                                      (LIB, 'getallRGBpal'): c_palette, (LIB, 'setbmppal'): c_setpal}))
    PROOFS.append(Proof(f'{_n}, missing source', under(_n), p_missing(_n, lambda ctx, s=_s: params(ctx, s)), registry={**REG, **FSR}, inputs=lambda ctx, m: {}))
PROOFS += [Proof('autocropimg2file', ['BITMAPlib.autocropimg2file', 'BITMAPlib.cropBMPandsaveusingrectbnd', 'BITMAPlib._usefn2regsv'], p_autocrop, inputs=lambda ctx, m: {},
                 registry={**REG, **FSR, **only('crop', True), (LIB, 'getimagedgevert'): c_edges, key(P2.rectboundarycoords): c_bounds}),
           Proof('cropBMPandsaveusingrectbnd', ['BITMAPlib.cropBMPandsaveusingrectbnd', 'BITMAPlib._usefn2regsv'], p_rectbnd, registry={**REG, **FSR, **only('crop', True)}, inputs=lambda ctx, m: {})]
for _n, _o in MADE.items():
    PROOFS.append(Proof(_n, [f'BITMAPlib.{_n}'], p_made(_n, _o), registry={**REG, **FSR, key(getattr(B, _o)): c_make(_o)}, inputs=lambda ctx, m: {}))


# ---- comparing two files: proof ----------------------------------------------------

def c_bytes(op):
    def contract(ctx, u, v):
        if not isinstance(u, Arr) or not isinstance(v, Arr):
            return NotImplemented
        f = z3.Function(op, I, I, I)
        x, y = u.snapshot(), v.snapshot()
        ctx.prove(eqv(u.length, v.length), f'{op} precondition: same length at {ctx.where()}', 'pre')

        def view(j):
            t = f(lift(x(j)), lift(y(j)))
            ctx.fact_once(('op', t.get_id()), z3.And(t >= 0, t <= 255))
            ctx.keep.append(t)
            return t
        return ctx.mk('list', length=u.length, view=view)
    contract.__doc__ = f'{op}: byte by byte     (C21)'
    return contract


def p_compare(name, op, bits, same):
    def run(ctx):
        a1, b1 = sym_bmp(ctx, bits)
        a2, b2 = sym_bmp(ctx, bits if same is not None else 32 - bits, '2', like=b1 if same else None)
        fs = ctx.ghost['fs'] = FS(ctx)
        if same is False:
            ctx.fact(z3.Or(lift(b1.w) != lift(b2.w), lift(b1.h) != lift(b2.h)))
        fs.put('in.bmp', b1.length, b1.base)
        fs.put('in2.bmp', b2.length, b2.base)
        ctx.call(getattr(B, name), ['in.bmp', 'in2.bmp', 'out.bmp'])
        ctx.prove(fs.writes == (['out.bmp'] if same else []), f'{name}: exactly the new file is written' if same else f'{name}: images of another size or depth are not compared')
        for f, b in (('in.bmp', b1), ('in2.bmp', b2)):
            n, v = fs.files[f]
            same_bytes(ctx, n, v, b.length, b.base, f'{name}: the source files are unchanged')
        if not same:
            return
        n, v = fs.files['out.bmp']
        ctx.prove(eqv(n, b1.length), f'{name}: length')
        for k in (*HEAD, 0, 1):
            ctx.prove(eqv(v(k), b1.base(k)), f'{name}: header field {k} as in the sources')
        j = ctx.fresh('jd')
        F = z3.Function(op, I, I, I)
        ctx.push()
        try:
            ctx.solver.add(j >= b1.hdr, j < lift(b1.length))
            ctx.prove(lift(v(j)) == F(lift(b1.base(j)), lift(b2.base(j))), f'{name}: every byte combined')
        finally:
            ctx.pop()
        if bits < 24:
            ctx.push()
            try:
                ctx.solver.add(j >= 54, j < b1.hdr)
                ctx.prove(lift(v(j)) == lift(b1.base(j)), f'{name}: palette of the first source')
            finally:
                ctx.pop()
    return run


def p_compare_missing(name, which):
    def run(ctx):
        fs = ctx.ghost['fs'] = FS(ctx)
        for f in which:
            a, b = sym_bmp(ctx, 24)
            fs.put(f, b.length, b.base)
        ctx.call(getattr(B, name), ['in.bmp', 'in2.bmp', 'out.bmp'])
        ctx.prove(not fs.writes and not fs.reads, f'{name}: a missing source writes nothing')
    return run


for _n, _o in COMPARE.items():
    _u = [f'BITMAPlib.{_n}', 'BITMAPlib.imagecomp', 'fileutils.checklinks']
    _g = {**REG, **FSR, key(getattr(ML, _o)): c_bytes(_o), key(getattr(ML, 'andvect' if _o == 'xorvect' else 'xorvect')): c_bytes('other')}
    for _b in ALL:
        PROOFS.append(Proof(f'{_n}, {_b} bit', _u, p_compare(_n, _o, _b, True), registry=_g, hints=small, inputs=lambda ctx, m: {}))
    PROOFS.append(Proof(f'{_n}, other size', _u, p_compare(_n, _o, 24, False), registry=_g, hints=small, inputs=lambda ctx, m: {}))
    PROOFS.append(Proof(f'{_n}, other depth', _u, p_compare(_n, _o, 24, None), registry=_g, hints=small, inputs=lambda ctx, m: {}))
    for _w in ((), ('in.bmp',), ('in2.bmp',)):
        PROOFS.append(Proof(f'{_n}, missing source {_w}', _u, p_compare_missing(_n, _w), registry=_g, inputs=lambda ctx, m: {}))


# ---- concrete -----------------------------------------------------------------------

def values(g, spec, w, h, bits):
    x1, x2 = sorted((g.randrange(w), g.randrange(w)))
    y1, y2 = sorted((g.randrange(h), g.randrange(h)))
    r = g.randrange(max(1, min(w, h) // 2))
    v = dict(x1=x1, y1=y1, x2=x2, y2=y2, x=g.randint(r, max(r, w - 1 - r)), y=g.randint(r, max(r, h - 1 - r)), r=r, n=g.randint(1, 5), color=g.randrange(1 << bits), c1=g.randrange(1 << 24),
             c2=g.randrange(1 << 24), dir=g.randrange(2), fn=ML.lerp, lum=g.choice([(0, 255), (255, 0), (40, 200)]), rgb=g.choice([(1.0, .5, .25), (.3, 1.0, 1.0)]), gamma=g.choice((.5, 1.5, 2.2)),
             percent=g.choice((-40, 25, 80)), point=(g.randrange(w), g.randrange(h)))
    return [v[p] for p in spec.split()]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Folder:
    """a scratch directory with a source image; says what a call changed"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='c20_')
        self.names = [os.path.join(self.d, n) for n in ('in.bmp', 'out.bmp', 'in2.bmp')]

    def fill(self, contents):
        for p, c in zip(self.names, contents):
            if os.path.exists(p):
                os.remove(p)
            if c is not None:
                with open(p, 'wb') as f:
                    f.write(bytes(c))
        self.before = self.state()

    def state(self):
        return {n: read(os.path.join(self.d, n)) for n in sorted(os.listdir(self.d))}

    def only(self, what, inputs, want):
        """the folder is as before, with out.bmp holding want (None: nothing new)"""
        now = self.state()
        exp = dict(self.before)
        if want is not None:
            exp['out.bmp'] = bytes(want)
        for n in sorted(set(now) | set(exp)):
            if now.get(n) != exp.get(n):
                say = 'is missing' if n not in now else 'was written' if n not in exp else f'holds {len(now[n])} bytes that differ from the {len(exp[n])} expected'
                raise Violation(f'{what}: {n} {say}', inputs)


def in_memory(op, b, ps, returns):
    random.seed(1)
    r = call(getattr(B, op), b, *ps)
    if r[0] != 'ok':
        return None
    return (r[1] if returns else b)


def do_form(F, g, name):
    op, spec, depths, returns = TABLE[name]
    bits = g.choice(ALL)
    w, h = g.randint(4, 24), g.randint(4, 24)
    b0 = mkbmp(w, h, bits, g)
    ps = values(g, spec, w, h, bits)
    shown = [getattr(p, '__name__', p) for p in ps]
    inputs = dict(op=name, bmp=desc(b0), args=shown)
    what = f'{name}{tuple(shown)} on a {w}x{h} image at {bits} bits'
    old = g.choice((None, bytes(3000)))
    F.fill((None, old))
    r = call(getattr(B, name), *F.names[:2], *ps)
    F.only(f'{what}, source missing', inputs, None)
    F.fill((b0, old))
    want = None
    if bits in depths:
        want = in_memory(op, b0[:], ps, returns)
        if want is None:
            return
    random.seed(1)
    r = call(getattr(B, name), *F.names[:2], *ps)
    if r[0] != 'ok':
        raise Violation(f'{what}: {r}, while the operation in memory succeeds', inputs)
    F.only(what, inputs, want)


def do_adjust(F, g, name):
    op, fn, spec = ADJ[name]
    bits = g.choice(ALL)
    w, h = g.randint(2, 20), g.randint(2, 20)
    b0 = mkbmp(w, h, bits, g)
    ps = values(g, spec, w, h, bits)
    inputs = dict(op=name, bmp=desc(b0), args=ps)
    what = f'{name}{tuple(ps)} on a {w}x{h} image at {bits} bits'
    F.fill((None, None))
    call(getattr(B, name), *F.names[:2], *ps)
    F.only(f'{what}, source missing', inputs, None)
    F.fill((b0, None))
    want = b0[:]
    if bits == 24:
        want = in_memory(op, want, ps, False)
    else:
        for i, c in enumerate(palette(b0)):
            r, g_, b_ = getattr(C, fn)(list(c), *ps)
            want[54 + 4 * i: 57 + 4 * i] = array('B', [b_, g_, r])
    must(call(getattr(B, name), *F.names[:2], *ps), what, inputs)
    F.only(what, inputs, want)


def do_compare(F, g, name):
    bits = g.choice(ALL)
    w, h = g.randint(1, 20), g.randint(1, 20)
    b1 = mkbmp(w, h, bits, g)
    k = g.randrange(4)
    b2 = mkbmp(w + (k == 1), h + (k == 2), g.choice([x for x in ALL if x != bits]) if k == 3 else bits, g)
    inputs = dict(op=name, bmp=desc(b1), other=desc(b2))
    what = f'{name} of a {w}x{h} image at {bits} bits and one of {geom(b2)}'
    names = [F.names[0], F.names[2], F.names[1]]
    for a, b in ((None, b2), (b1, None), (None, None)):
        F.fill((a, None, b))
        call(getattr(B, name), *names)
        F.only(f'{what}, a source missing', inputs, None)
    F.fill((b1, None, b2))
    must(call(getattr(B, name), *names), what, inputs)
    want = None
    if geom(b1) == geom(b2):
        n = HDR[bits]
        want = bytes(b1[:n]) + bytes((x ^ y if name == 'imagediff' else x & y) for x, y in zip(b1[n:], b2[n:]))
        got = F.state().get('out.bmp')
        if got is not None and len(got) == len(want):       # header fields that carry no meaning may differ
            want = bytes(got[i] if 26 <= i < 54 and i != 28 else want[i] for i in range(len(want)))
    F.only(what, inputs, want)


def do_cycle(F, g):
    bits = 4
    w, h = g.randint(1, 9), g.randint(1, 9)
    b0 = mkbmp(w, h, bits, g)
    F.fill((b0, None))
    inputs = dict(op='colorcycle2dir', bmp=desc(b0))
    cwd = os.getcwd()
    sub = os.path.join(F.d, 'cycle')
    try:
        os.chdir(F.d)
        must(call(B.colorcycle2dir, 'in.bmp', 'cycle'), 'colorcycle2dir', inputs)
        got = {n: read(os.path.join(sub, n)) for n in sorted(os.listdir(sub))}
        want, b = {}, b0[:]
        for i in range(1 << bits):
            want[f'{i}.bmp'] = bytes(b)
            B.palshift(b)
        if got != want:
            raise Violation(f'colorcycle2dir wrote {len(got)} files, expected the {len(want)} images of a cycle of the palette', inputs)
        if read('in.bmp') != bytes(b0):
            raise Violation('colorcycle2dir changed its source', inputs)
        r = call(B.colorcycle2dir, 'in.bmp', 'cycle')
        if r[0] == 'ok':
            raise Violation('colorcycle2dir: an existing directory is overwritten unasked', inputs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(sub, ignore_errors=True)


def do_other(F, g):
    w, h = g.randint(6, 24), g.randint(6, 24)
    b0 = mkbmp(w, h, 24, g)
    x1, y1, x2, y2 = values(g, RECT, w - 1, h - 1, 24)
    inputs = dict(op='cropBMPandsaveusingrectbnd', bmp=desc(b0), args=[x1, y1, x2, y2])
    F.fill((b0, None))
    want = in_memory('crop', b0[:], (x1, y1, x2 + 1, y2 + 1), True)
    must(call(B.cropBMPandsaveusingrectbnd, *F.names[:2], ((x1, y1), (x2, y2))), 'cropBMPandsaveusingrectbnd', inputs)
    F.only('cropBMPandsaveusingrectbnd', inputs, want)
    F.fill((None, None))
    call(B.cropBMPandsaveusingrectbnd, *F.names[:2], ((x1, y1), (x2, y2)))
    F.only('cropBMPandsaveusingrectbnd, missing source', inputs, None)


def every(F, g):
    for n in TABLE:
        yield lambda n=n: do_form(F, g, n)
    for n in ADJ:
        yield lambda n=n: do_adjust(F, g, n)
    for n in COMPARE:
        yield lambda n=n: do_compare(F, g, n)
    yield lambda: do_cycle(F, g)
    yield lambda: do_other(F, g)


def b_files(X):
    F = Folder()
    try:
        while X.more():
            for i, f in enumerate(every(F, X.rng)):
                f()
                X.case((i, X.rng.random()))
                if not X.more():
                    break
    finally:
        shutil.rmtree(F.d)


def search(name):
    """replay: look for a failing call of the same form on the real code"""
    do = next((f for t, f in ((TABLE, do_form), (ADJ, do_adjust), (COMPARE, do_compare)) if name in t), None)

    def replay(i):
        if do is None:
            return None
        F, g, end = Folder(), random.Random(3), time.time() + 4
        try:
            while time.time() < end:
                do(F, g, name)
        except Violation as e:
            i.clear()
            i.update(e.inputs)
            return str(e)
        finally:
            shutil.rmtree(F.d)
        return None
    return replay


for _p in PROOFS:
    _p.replay = search(_p.name.split(',')[0])
BOUNDED = [Bounded('file forms, concrete', b_files, 'random images up to 24x24 at every depth, every file form, with and without an earlier target, missing sources',
                   [f'BITMAPlib.{n}' for n in [*TABLE, *ADJ, *COMPARE, 'colorcycle2dir', 'cropBMPandsaveusingrectbnd']], quick=12, thorough=120)]
ASSUMPTIONS = [ASSUMED_FS, 'a source file holds a well-formed bitmap; source and target are different files',
               'the operations themselves are functions of the image and the parameters here; what they compute is the subject of their own properties (fern and the attractors draw random numbers)',
               'reduce24bitimagebits and imgregionbyRGB2file have no form in memory and are not covered; colorcycle2dir by the bounded check only']
