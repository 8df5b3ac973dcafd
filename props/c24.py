"""C24: vertices of curves and solids lie on the shape they name; faces of solids close up; turning a solid is rigid."""
import ast
import cmath
import inspect
import math
import textwrap
from collections import Counter
from .common import *
from .contracts import *
from pyvc import cx
from pythonbmp import BITMAPlib as B, fractals as F, mathlib as M, primitives2D as P2, solids3D as S
PROPERTY = 'C24'
Rl = z3.RealSort()
ASSUMPTIONS = ['floating point numbers are treated as mathematical reals in the proofs; sine and cosine are any functions with sin^2 + cos^2 = 1 and values from -1 to 1, the hyperbolic tangent any '
               'function from -1 to 1; the bounded part runs the real functions on floats',
               'partial correctness: termination is not proved (a curve needs a positive step)',
               'spheres (their vertices are collected by comparing floats), powers of the superellipse and of the egg, the Cornu spiral, Bezier and B-spline blending, Hilbert curves, the Ikeda, N and symmetric icon attractors: bounded only',
               'powers of the Gumowski-Mira and Hopalong maps are any function of base and exponent']


def Q(ctx, *ts):
    """product in the polynomial normal form the verifier uses"""
    t = ts[0]
    for u in ts[1:]:
        t = ctx.binop('*', t, u)
    return t


def sq(ctx, *ts):
    t = 0
    for u in ts:
        t = ctx.binop('+', t, ctx.binop('*', u, u))
    return t


def circ(ctx, s, c, *fs):
    """sin^2 + cos^2 = 1, also multiplied by the factors"""
    for f in (1.0, *fs):
        ctx.fact(lift(Q(ctx, sq(ctx, s, c), f)) == lift(f))


# ---- curves given by a parameter: t = k * step --------------------------------------

def seen(k, p):
    pass


def walk(f, *args):
    seqno = 0
    for p in f(*args):
        seen(seqno, p)
        seqno += 1
    return seqno


def c_seen(ctx, k, p):
    """the k-th point is within one pixel of the point of the curve at the k-th parameter"""
    g = ctx.ghost['curve']
    kk = ctx.loops[-1].k if ctx.loops else k
    ctx.prove(lift(k) == lift(kk), 'points are numbered by the steps', 'pre')
    want = g['at'](g['time'](ctx, kk))
    got = [ctx.get_index(p, i) for i in range(2)]
    for i, w in enumerate(want):
        e = lift(got[i])
        ctx.prove(e.is_int(), 'coordinates are whole numbers', 'pre')
        d = z3.ToReal(e) - cx.r(w)
        ctx.prove(z3.And(d <= 1, d >= -1), f'coordinate {"xy"[i]} is within one pixel of the curve', 'pre')
    return None


class Steps(LoopSpec):
    def __init__(self, names, time, L=None):
        v = frame_with(L.ctx, 'lim') if names else None
        if v is not None:      # the parameter of the curve: the variable that starts at 0
            names = [n for n, t in v.items() if type(t) in (int, float) and t == 0] or names
        self.names, self.time = names, time

    def inv(self, L, k):
        out = []
        v = frame_with(L.ctx, 'seqno')
        if v is not None:
            out.append(lift(v['seqno']) == lift(k))
        for nm in self.names:
            v = frame_with(L.ctx, nm, 'lim')
            if v is not None:
                out.append(cx.r(v[nm]) == cx.r(self.time(L.ctx, k)))
        return out

    def fix(self, L, k):
        for nm in self.names:
            v = frame_with(L.ctx, nm, 'lim')
            if v is not None and is_sym(v[nm]):
                L.ctx.prove(cx.r(v[nm]) == cx.r(self.time(L.ctx, k)), 'parameter of the step', 'inv')
                v[nm] = self.time(L.ctx, k)


def p_curve(f, spec, degrees=False):
    """spec(ctx) -> (arguments, point at the parameter t)"""
    def run(ctx):
        ctx.ghost['congr'] = True
        step = z3.Real('delta')
        lim = z3.Real('lim')
        args, at = spec(ctx)
        if degrees:
            time = lambda c, k: c.binop('*', k, math.pi / 180)
        else:
            time = lambda c, k: c.binop('*', step, cx.r(k))
            args = args + [step, lim]
            ctx.fact(step > 0)
        ctx.ghost['curve'] = dict(at=lambda t: at(ctx, t), time=time)
        ctx.ghost['force_for'] = lambda c_, node, n: n > 100
        ctx.specs.append(lambda L: Steps([] if degrees else ['t'], time, L))
        n = ctx.call(walk, [f, *args])
        if degrees:
            ctx.prove(eqv(n, 360), 'one point per degree')
    return run


def trig(ctx):
    return [lambda x, f=f: ctx.call(f, [x]) for f in (math.sin, math.cos)]


def centre():
    return list(z3.Ints('x0 y0'))


def s_lissajous(ctx):
    x, y = centre()
    a, b, c, d, e = z3.Reals('ax bx cx dx ex')
    sin, cos = trig(ctx)
    B_ = ctx.binop
    return [x, y, a, b, c, d, e], lambda ctx, t: (B_('+', x, B_('*', a, cos(B_('+', B_('*', c, t), e)))), B_('+', y, B_('*', b, sin(B_('*', d, t)))))


def polar(ctx, *terms):
    """sum of r * (cos w, sin w)"""
    sin, cos = trig(ctx)
    X = Y = 0
    for r, w in terms:
        X = ctx.binop('+', X, ctx.binop('*', r, cos(w)))
        Y = ctx.binop('+', Y, ctx.binop('*', r, sin(w)))
    return X, Y


def shift(ctx, c, p):
    return tuple(ctx.binop('+', u, v) for u, v in zip(c, p))


def s_epicycloid(ctx):
    x, y = centre()
    a, b = z3.Reals('ax bx')
    ctx.fact(b > 0)
    B_ = ctx.binop
    return [x, y, a, b], lambda ctx, t: shift(ctx, (x, y), polar(ctx, (B_('+', a, b), t), (B_('-', 0, b), B_('*', B_('+', B_('/', a, b), 1), t))))


def s_hypotrochoid(ctx):
    x, y = centre()
    a, b, c = z3.Reals('ax bx cx')
    ctx.fact(b > 0)
    B_ = ctx.binop
    return [x, y, a, b, c], lambda ctx, t: shift(ctx, (x, y), polar(ctx, (B_('-', a, b), t), (c, B_('*', B_('-', 1, B_('/', a, b)), t))))


def s_spirograph(ctx):
    x, y = centre()
    r, l, k = z3.Reals('rx lx kx')
    ctx.fact(k > 0)
    B_ = ctx.binop
    return [x, y, r, l, k], lambda ctx, t: shift(ctx, (x, y), polar(ctx, (B_('*', r, B_('-', 1, k)), t), (B_('*', r, B_('*', l, k)), B_('*', B_('-', 0, B_('/', B_('-', 1, k), k)), t))))


def s_involute(ctx):
    x, y = centre()
    a = z3.Real('ax')
    sin, cos = trig(ctx)
    B_ = ctx.binop
    return [x, y, a], lambda ctx, t: shift(ctx, (x, y), (B_('*', a, B_('+', cos(t), B_('*', t, sin(t)))), B_('*', a, B_('-', sin(t), B_('*', t, cos(t))))))


def s_gear(ctx):
    x, y = centre()
    a, b, n = z3.Reals('ax bx nx')
    sin, cos = trig(ctx)
    B_ = ctx.binop

    def at(ctx, t):
        R_ = B_('+', a, B_('*', b, ctx.call(math.tanh, [B_('*', b, sin(B_('*', n, t)))])))
        return shift(ctx, (x, y), polar(ctx, (R_, t)))
    return [x, y, a, b, n], at


def s_heart(ctx):
    x, y = centre()
    s = z3.Real('sx')
    sin, cos = trig(ctx)
    B_ = ctx.binop

    def at(ctx, t):
        u = B_('*', 16, B_('**', sin(t), 3))
        v = B_('-', B_('-', B_('-', B_('*', 13, cos(t)), B_('*', 5, cos(B_('*', 2, t)))), B_('*', 2, cos(B_('*', 3, t)))), cos(B_('*', 4, t)))
        return B_('+', x, B_('*', s, u)), B_('-', y, B_('*', s, v))
    return [x, y, s], at


CURVES = {'iterlissajouscurve': (s_lissajous, False), 'iterepicycloid': (s_epicycloid, False), 'iterhypotrochoid': (s_hypotrochoid, False), 'iterspirograph': (s_spirograph, False),
          'itercircleinvolute': (s_involute, False), 'itergearcurve': (s_gear, True), 'iterheartcurve': (s_heart, True)}
REGS = {('props.c24', 'seen'): c_seen}

# ---- solids --------------------------------------------------------------------------

def returned(f):
    """the names of the lists that a function returns (the names used here are looked up, not prescribed)"""
    t = ast.parse(textwrap.dedent(inspect.getsource(f)))
    r = [n.value for n in ast.walk(t) if isinstance(n, ast.Return)]
    if len(r) != 1:
        return None
    return [e.id if isinstance(e, ast.Name) else None for e in (r[0].elts if isinstance(r[0], ast.Tuple) else r)]


class Appended(LoopSpec):
    """lists built by appending: the element at j is elem(name, j)"""
    def __init__(self, f, names, per, elem, counters=(), L=None):
        found = (returned(f) or [None])[:len(names)]
        if len(found) == len(names) and None not in found:
            self.alias = dict(zip(found, names))
        else:
            self.alias = {n: n for n in names}
        names = tuple(self.alias)
        v = frame_with(L.ctx, *names)
        if counters and v is not None:
            zero = [n for n, t in v.items() if type(t) is int and t == 0]
            if len(zero) == 1:      # the variable that counts from 0
                counters = ((zero[0], counters[0][1]),)
            elif not zero:
                counters = ()
        self.names, self.per, self.elem, self.counters = names, per, elem, counters

    def inv(self, L, k):
        v = frame_with(L.ctx, *self.names, *[c for c, _ in self.counters])
        if v is None:
            return []
        return [lift(v[c]) == lift(f(k)) for c, f in self.counters]

    def arr(self, L, a, k):
        v = frame_with(L.ctx, *self.names)
        if v is None:
            return None
        for nm in self.names:
            if v[nm] is a:
                e, kk = self.elem, L.ctx.loops[-1].k if L.ctx.loops else None

                nm = self.alias[nm]

                def view(j, nm=nm):
                    v = e(L.ctx, nm, j)
                    if kk is None or not is_sym(j) or not is_sym(kk):
                        return v
                    w = e(L.ctx, nm, kk)      # the same term of the same position
                    return L.ctx.mk('list', items=[z3.If(lift(j) == lift(kk), lift(b), lift(a_)) for a_, b in zip(v.items, w.items)])
                return ArrSpec(view=view, length=self.per(nm, k))
        return None


def lst(ctx, *v):
    return ctx.mk('list', items=list(v))


def p_perspective(ctx):
    """distances between any two points are kept; the picture is the central projection"""
    ctx.ghost['congr'] = True
    n = z3.Int('n')
    ctx.fact(n >= 0)
    F = [z3.Function(f'p{c}', I, Rl) for c in 'xyz']
    pt = lambda j: [f(lift(j)) for f in F]
    def vertex(j):
        z = lift(at(j)[2])
        ctx.fact_once(('deep', z3.simplify(lift(j)).get_id()), lambda: z != 0)      # precondition: no vertex in the plane of the eye
        ctx.keep.append(z3.simplify(lift(j)))
        return lst(ctx, *pt(j))
    pts = ctx.mk('list', length=n, view=vertex)
    rot = [z3.Reals(f's{a} c{a}') for a in ('roll', 'pitch', 'yaw')]
    disp = z3.Reals('dx dy dz')
    d = z3.Real('d')
    B_ = ctx.binop

    def turned(p):
        (sr, cr), (sp, cp), (sy, cy) = rot
        px, py, pz = p
        x1 = B_('-', B_('*', B_('-', 0, cy), px), B_('*', sy, pz))
        y1 = B_('-', B_('*', cr, py), B_('*', sr, x1))
        z1 = B_('+', B_('*', B_('-', 0, sy), px), B_('*', cy, pz))
        return [B_('+', B_('*', cr, x1), B_('*', sr, py)), B_('+', B_('*', sp, z1), B_('*', cp, y1)), B_('-', B_('*', cp, z1), B_('*', sp, y1))]

    def at(j):
        return [B_('+', u, v) for u, v in zip(turned(pt(j)), disp)]

    def elem(c, nm, j):
        vertex(j)
        x, y, z = at(j)
        if nm == 'rotvlist':
            return lst(c, x, y, z)
        t = B_('*', B_('-', 0, d), x), B_('*', B_('-', 0, d), y)
        return lst(c, *[B_('/', u, z) for u in t])
    ctx.specs.append(lambda L: Appended(S.perspective, ('rotvlist', 'projvlist'), lambda nm, k: k, elem, L=L))
    r, pr = [ctx.get_index(ctx_r, i) for ctx_r in [ctx.call(S.perspective, [pts, tuple(tuple(v) for v in rot), tuple(disp), d])] for i in range(2)]
    ctx.prove(and_(eqv(r.length, n), eqv(pr.length, n)), 'as many points as vertices')
    i, j = ctx.fresh('i'), ctx.fresh('j')
    ctx.solver.add(i >= 0, i < n, j >= 0, j < n)
    vertex(i)
    a, b = r.view(i), r.view(j)
    diff = [B_('-', u, v) for u, v in zip(pt(i), pt(j))]
    t = turned(diff)
    for q in range(3):
        ctx.prove(lift(B_('-', a.view(q), b.view(q))) == lift(t[q]), f'turning is linear, coordinate {q}')
    (sr, cr), (sp, cp), (sy, cy) = rot
    px, py, pz = diff
    x1 = B_('-', B_('*', B_('-', 0, cy), px), B_('*', sy, pz))
    y1 = B_('-', B_('*', cr, py), B_('*', sr, x1))
    z1 = B_('+', B_('*', B_('-', 0, sy), px), B_('*', cy, pz))
    circ(ctx, sy, cy, B_('*', px, px), B_('*', pz, pz))
    ctx.prove(lift(sq(ctx, x1, z1)) == lift(sq(ctx, px, pz)), 'the first turn keeps lengths')
    circ(ctx, sr, cr, B_('*', x1, x1), B_('*', py, py))
    ctx.prove(lift(sq(ctx, t[0], y1)) == lift(sq(ctx, x1, py)), 'the second turn keeps lengths')
    circ(ctx, sp, cp, B_('*', z1, z1), B_('*', y1, y1))
    ctx.prove(lift(sq(ctx, t[1], t[2])) == lift(sq(ctx, z1, y1)), 'the third turn keeps lengths')
    ctx.prove(lift(sq(ctx, *t)) == lift(sq(ctx, *diff)), 'the distance of two vertices is kept')
    u = pr.view(i)
    for q in range(2):
        ctx.prove(lift(u.view(q)) == lift(B_('/', B_('*', B_('-', 0, d), at(i)[q]), at(i)[2])), f'projected coordinate {q} is -d times the coordinate by the depth')


def p_round(f, cone):
    """vertices of cylinders and cones: on the surface, one after the other in steps of the angle"""
    def run(ctx):
        ctx.ghost['congr'] = True
        cen = list(z3.Reals('cx cy cz'))
        r, zlen = z3.Reals('r zlen')
        step = z3.Int('step')
        ctx.fact(z3.And(step >= 1, step <= 360))
        B_ = ctx.binop
        sin, cos = trig(ctx)
        half = B_('/', zlen, 2)

        def at(k, up):
            t = B_('*', B_('*', k, step), math.pi / 180)
            return [B_('+', cen[0], B_('*', r, cos(t))), B_('+', cen[1], B_('*', r, sin(t))), B_('+' if up else '-', cen[2], half)]

        def index(j):
            return (B_('-', j, 1), True) if cone else (B_('//', j, 2), B_('%', j, 2))

        def elem(c, nm, j):
            k, up = index(j)
            if cone:
                if not is_sym(j) and j == 0:
                    return lst(c, cen[0], cen[1], B_('-', cen[2], half))
                a = at(k, True)
                return lst(c, *[z3.If(lift(j) == 0, lift(u), lift(v)) for u, v in zip((cen[0], cen[1], B_('-', cen[2], half)), a)])
            a, b = at(k, False), at(k, True)
            return lst(c, *[z3.If(lift(up) == 0, lift(u), lift(v)) for u, v in zip(a, b)])
        per = (lambda nm, k: unlift(lift(k) + 1)) if cone else (lambda nm, k: unlift(2 * lift(k)))
        ctx.specs.append(lambda L: Appended(f, ('plist',), per, elem, () if cone else (('i', lambda k: 2 * lift(k)),), L))
        res = ctx.call(f, [lst(ctx, *cen), r, zlen, step])
        pl = ctx.get_index(res, 0)
        j = ctx.fresh('j')
        ctx.solver.add(j >= (1 if cone else 0), j < lift(pl.length))
        p = pl.view(j)
        k, up = index(j)
        t = B_('*', B_('*', k, step), math.pi / 180)
        s, c = sin(t), cos(t)
        circ(ctx, s, c, B_('*', r, r))
        X, Y = B_('*', r, c), B_('*', r, s)
        ctx.prove(z3.And(lift(p.view(0)) == cen[0] + lift(X), lift(p.view(1)) == cen[1] + lift(Y)), 'the vertex lies at its angle')
        ctx.prove(lift(sq(ctx, X, Y)) == lift(B_('*', r, r)), 'the vertex lies at the radius from the axis')
        ctx.prove(z3.Or(lift(p.view(2)) == lift(B_('+', cen[2], half)), lift(p.view(2)) == lift(B_('-', cen[2], half)) if not cone else z3.BoolVal(False)), 'the vertex lies on an end')
    return run


def p_polygon(ctx):
    ctx.ghost['congr'] = True
    x, y, r, n = z3.Ints('x y r sides')
    ang = z3.Real('angle')
    ctx.fact(n >= 1)
    B_ = ctx.binop
    sin, cos = trig(ctx)

    def w(j):
        return B_('+', B_('*', ang, math.pi / 180), B_('*', B_('/', B_('*', 360, j), n), math.pi / 180))

    def elem(c, nm, j):
        t = w(j)
        return lst(c, B_('-', cx.r(x), B_('*', r, sin(t))), B_('-', cx.r(y), B_('*', r, cos(t))))
    ctx.specs.append(lambda L: Appended(P2.floatregpolygonvert, ('v',), lambda nm, k: k, elem, L=L))
    v = ctx.call(P2.floatregpolygonvert, [x, y, r, n, ang])
    ctx.prove(eqv(v.length, n), 'as many vertices as sides')
    j = ctx.fresh('j')
    ctx.solver.add(j >= 0, j < n)
    p = v.view(j)
    s, c = sin(w(j)), cos(w(j))
    X, Y = B_('*', r, s), B_('*', r, c)
    ctx.prove(z3.And(lift(p.view(0)) == cx.r(x) - cx.r(X), lift(p.view(1)) == cx.r(y) - cx.r(Y)), 'the vertex lies at its angle')
    rr = B_('*', cx.r(r), cx.r(r))
    circ(ctx, s, c, rr)
    ctx.prove(lift(sq(ctx, X, Y)) == lift(rr), 'the vertex lies at the radius from the centre')


def p_simple(ctx):
    x, y, u, v, d = z3.Ints('x y u v d')
    q = ctx.call(P2.recvert, [x, y, u, v])
    for i, e in enumerate(((x, y), (u, y), (u, v), (x, v))):
        p = ctx.get_index(q, i)
        ctx.prove(and_(*[eqv(ctx.get_index(p, c), e[c]) for c in range(2)]), f'corner {i}')
    ctx.fact(d >= 1)
    ctx.add_stride(d)
    for name, f in (('horizontalvert', P2.horizontalvert), ('verticalvert', P2.verticalvert)):
        q = ctx.call(f, [y, u, v, d])
        if not is_sym(q.length):
            ctx.prove(z3.And(u >= v, q.length == 0), f'{name}: nothing beyond the end')
            continue
        j = ctx.fresh('j')
        ctx.push()
        ctx.solver.add(j >= 0, j < lift(q.length))
        a, b = (q.view(j).view(i) for i in range(2))
        if name == 'verticalvert':
            a, b = b, a
        ctx.prove(and_(eqv(b, y), eqv(a, u + lift(ctx.mul(j, d)))), f'{name}: point j')
        ctx.prove(lift(a) < v, f'{name}: before the end')
        ctx.pop()


def p_tables(ctx):
    """the faces of the tabulated solids close up"""
    t = ctx.call(S.getshapesidedict, [])
    for name in ('tetrahedra', 'cube', 'hexahedra', 'octahedra'):
        ctx.prove(z3.BoolVal(closed(plain(ctx, ctx.get_index(t, name))) is None), f'{name}: every edge belongs to two faces, in opposite directions')


def plain(ctx, v):
    if isinstance(v, (tuple, list)):
        return [plain(ctx, t) for t in v]
    if isinstance(v, int):
        return v
    return [plain(ctx, t) for t in v.items]


def closed(faces):
    """None, or an edge that does not belong to exactly two faces in opposite directions"""
    n = Counter((f[i - 1], f[i]) for f in faces for i in range(len(f)))
    for e in n:
        if n[e] != 1 or n[e[::-1]] != 1:
            return e
    return None


# ---- orbits and recursive curves -------------------------------------------------------

def assigned(f):
    """names that live on from one round of the loop of f to the next: numbers set before the loop (or parameters) and again in it"""
    t = ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]
    loops = [n for n in t.body if isinstance(n, (ast.For, ast.While))]
    if len(loops) != 1:
        return ()
    stores = lambda ns: [m.id for n in ns for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)]
    inside = set(stores([loops[0]]))
    before = [a.arg for a in t.args.args] + stores(t.body[:t.body.index(loops[0])])
    return tuple(dict.fromkeys(n for n in before if n in inside))


class Orbit(LoopSpec):
    """after k rounds the state is the k-th point of the orbit and the list holds the first k points"""
    def __init__(self, o, L):
        self.o, self.names = o, None
        v = frame_with(L.ctx, *o['names'])
        if v is not None:
            self.names = o['names']
        else:
            # renamed: the numbers that the loop assigns, in the order in which they are first assigned in the function
            got = assigned(o['f'])
            if len(got) == len(o['names']) and frame_with(L.ctx, *got) is not None:
                self.names = got

    def frame(self, L):
        return frame_with(L.ctx, *self.names) if self.names else None

    def inv(self, L, k):
        v = self.frame(L)
        if v is None:
            return []
        self.o['step'](L.ctx, k)
        return [cx.r(v[n]) == cx.r(t) for n, t in zip(self.names, self.o['state'](k))]

    def fix(self, L, k):
        v = self.frame(L)
        for n, t in zip(self.names or (), self.o['state'](k)):
            if v is not None and is_sym(v[n]):
                L.ctx.prove(cx.r(v[n]) == cx.r(t), 'state of the orbit', 'inv')
                v[n] = t

    def arr(self, L, a, k):
        pt = self.o['point']

        def view(j):
            if grown:
                return tuple(cx.r(u) for u in pt(unlift(lift(j) + 1)))
            return tuple(z3.If(lift(j) < lift(k), cx.r(u), z3.RealVal(0)) for u in pt(unlift(lift(j) + 1)))
        n0 = L.entry_len(a)
        grown = not is_sym(n0) and n0 == 0      # the list is appended to
        return ArrSpec(view=view, length=k if grown else self.o['n'])


def p_orbit(f, names, start, step, nargs):
    """step(ctx, arguments, state) -> next state; the start may depend on the arguments"""
    def run(ctx):
        ctx.ghost['congr'] = True
        ctx.ghost['pow'] = lambda a, b, r: z3.BoolVal(True)      # powers are any function of base and exponent
        n = z3.Int('n')
        ctx.fact(n >= 0)
        args = list(z3.Reals(' '.join('abcdefg'[:nargs]))) if nargs else []
        fs = [z3.Function(f'orbit{i}', I, Rl) for i in range(len(names))]
        state = lambda k: [g(lift(k)) for g in fs]
        ctx.fact(z3.And(*[u == cx.r(v) for u, v in zip(state(0), start(args) if start is not mira_start else mira_start(ctx, args))]))
        done = set()

        def steps(c, k):
            kk = z3.simplify(lift(k))
            if kk.get_id() in done:
                return
            done.add(kk.get_id())
            c.keep.append(kk)
            new = step(c, args, state(kk))
            c.solver.add(z3.And(*[u == cx.r(v) for u, v in zip(state(kk + 1), new)]))
        o = dict(f=f, names=names, state=state, step=steps, n=n, point=(lambda j: state(j)[:2]))
        ctx.specs.append(lambda L: Orbit(o, L))
        r = ctx.call(f, args + [n])
        ctx.prove(eqv(r.length, n), 'as many points as asked for')
        if not is_sym(r.length) and r.length == 0:
            return
        j = ctx.fresh('j')
        ctx.solver.add(j >= 0, j < n)
        p = r.view(j)
        for q in range(2):
            ctx.prove(cx.r(ctx.get_index(p, q)) == cx.r(state(unlift(j + 1))[q]), f'point j is step j + 1 of the orbit, coordinate {"xy"[q]}')
    return run


def two(ctx, f, *a):
    return f(lambda t: ctx.call(math.sin, [t]), lambda t: ctx.call(math.cos, [t]), ctx.binop, *a)


def st_dejong(ctx, A, s):
    (a, b, c, d), (x, y) = A, s
    return two(ctx, lambda S_, C, O: [O('-', S_(O('*', a, y)), C(O('*', b, x))), O('-', S_(O('*', c, x)), C(O('*', d, y)))])


def st_clifford(ctx, A, s):
    (a, b, c, d), (x, y) = A, s
    return two(ctx, lambda S_, C, O: [O('+', S_(O('*', a, y)), O('*', c, C(O('*', a, x)))), O('+', S_(O('*', b, x)), O('*', d, C(O('*', b, y))))])


def st_dream(ctx, A, s):
    (a, b, c, d), (x, y) = A, s
    return two(ctx, lambda S_, C, O: [O('+', S_(O('*', b, y)), O('*', c, S_(O('*', b, x)))), O('+', S_(O('*', a, x)), O('*', d, S_(O('*', a, y))))])


def st_duffing(ctx, A, s):
    (_, _, _, dt, a, b, w), (x, y, t) = A, s
    O = ctx.binop
    force = O('*', b, ctx.call(math.cos, [O('*', w, t)]))
    acc = O('+', O('-', O('-', x, O('*', x, O('*', x, x))), O('*', a, y)), force)
    return [O('+', x, O('*', y, dt)), O('+', y, O('*', acc, dt)), O('+', t, dt)]


def st_hopalong(ctx, A, s):
    (a, b, c), (x, y) = A, s
    O = ctx.binop
    w = O('-', O('*', b, x), c)
    root = O('**', z3.If(lift(w) >= 0, lift(w), -lift(w)), .5)
    return [O('-', y, z3.If(x > 0, cx.r(root), z3.If(x == 0, z3.RealVal(0), -cx.r(root)))), O('-', a, x)]


def mira(ctx, a, x):
    O = ctx.binop
    xx = O('*', x, x)
    return O('+', O('*', a, x), O('*', O('*', O('*', 2, O('-', 1, a)), xx), O('**', O('+', 1, xx), -2)))


def st_mira(ctx, A, s):
    (_, _, a, b), (x, y, g) = A, s      # g = f(x)
    O = ctx.binop
    nx = O('+', O('*', b, y), g)
    ng = mira(ctx, a, nx)
    return [nx, O('-', ng, x), ng]


def mira_start(ctx, A):
    return [A[0], A[1], mira(ctx, A[2], A[0])]


ORBITS = {'peterdejongattractorlist': (('x', 'y'), lambda A: (0, 0), st_dejong, 4), 'cliffordattractorlist': (('x', 'y'), lambda A: (0, 0), st_clifford, 4),
          'fractaldreamattractorlist': (('x', 'y'), lambda A: (0.1, 0.1), st_dream, 4), 'duffingattractorlist': (('x', 'y', 't'), lambda A: A[:3], st_duffing, 7),
          'hopalongattractorlist': (('x', 'y'), lambda A: (0, 0), st_hopalong, 3),
          'gumowskimiraattractorlist': (('x', 'y', 'g'), mira_start, st_mira, 4)}


def koch_points(O, u, v, h):
    d = [O('-', b, a) for a, b in zip(u, v)]
    third = [O('/', t, 3) for t in d]
    mid = [O('/', O('+', a, b), 2) for a, b in zip(u, v)]
    return ([O('+', a, t) for a, t in zip(u, third)], [O('-', mid[0], O('*', h, d[1])), O('+', mid[1], O('*', h, d[0]))], [O('-', b, t) for b, t in zip(v, third)])


def p_koch(ctx):
    u, v = list(z3.Reals('ux uy')), list(z3.Reals('vx vy'))
    h = z3.Real('h')
    got = ctx.call(F.koch, [tuple(u), tuple(v), h])
    for i, e in enumerate(koch_points(ctx.binop, u, v, h)):
        p = ctx.get_index(got, i)
        for q in range(2):
            ctx.prove(lift(ctx.get_index(p, q)) == lift(e[q]), f'point {i} of the dent, coordinate {"xy"[q]}')


def p_kochcurve(order):
    def run(ctx):
        u, v = tuple(z3.Reals('ux uy')), tuple(z3.Reals('vx vy'))
        O = ctx.binop
        h = math.sqrt(3) / 6
        want = [list(u), list(v)]
        for _ in range(order):
            want = [p for a, b in zip(want, want[1:]) for p in (a, *koch_points(O, a, b, h))] + want[-1:]
        got = ctx.call(F.kochcurvevert, [u, v, order])
        ctx.prove(eqv(got.length, 4 ** order + 1), 'number of points')
        for i, e in enumerate(want):
            p = ctx.get_index(got, i)
            for q in range(2):
                g, w = cx.r(ctx.get_index(p, q)), cx.r(e[q])
                ctx.prove(g == w, f'point {i}, coordinate {"xy"[q]}')
    return run


PROOFS = []
for _f, (_s, _d) in CURVES.items():
    PROOFS.append(Proof(_f, [f'primitives2D.{_f}'], p_curve(getattr(P2, _f), _s, _d), registry=REGS, inline_modules=('props.c24',), hints=small))
PROOFS.append(Proof('perspective', ['solids3D.perspective'], p_perspective, hints=small))
PROOFS.append(Proof('cylinder', ['solids3D.cylindervertandsurface'], p_round(S.cylindervertandsurface, False), hints=small))
PROOFS.append(Proof('cone', ['solids3D.conevertandsurface'], p_round(S.conevertandsurface, True), hints=small))
PROOFS.append(Proof('regular polygon', ['primitives2D.floatregpolygonvert'], p_polygon, hints=small))
PROOFS.append(Proof('corners and rows of points', ['primitives2D.recvert', 'primitives2D.horizontalvert', 'primitives2D.verticalvert'], p_simple, hints=small))
PROOFS.append(Proof('tables of faces', ['solids3D.getshapesidedict'], p_tables, hints=small))

for _f, _o in ORBITS.items():
    PROOFS.append(Proof(_f, [f'fractals.{_f}'], p_orbit(getattr(F, _f), *_o), hints=small))
PROOFS.append(Proof('koch', ['fractals.koch'], p_koch, hints=small))
for _n in range(3):
    PROOFS.append(Proof(f'kochcurvevert, order {_n}', ['fractals.kochcurvevert'], p_kochcurve(_n), hints=small))


# ---- the real functions on floats ------------------------------------------------------

def near_all(name, got, want, tol, inputs):
    got = list(got)
    if len(got) != len(want):
        raise Violation(f'{name}: {len(got)} points, expected {len(want)}', inputs)
    for k, (p, e) in enumerate(zip(got, want)):
        if len(p) != len(e) or any(abs(u - v) > tol for u, v in zip(p, e)):
            raise Violation(f'{name}: point {k} is {tuple(p)}, the curve is at {tuple(e)}', inputs)


def sgn(v):
    return (v > 0) - (v < 0)


def times(step, lim):
    t, out = 0, []
    while t < lim:
        out.append(t)
        t += step
    return out


def a_curve(g):
    """-> name, arguments, points of the curve"""
    x, y = g.randint(-50, 200), g.randint(-50, 200)
    z0 = complex(x, y)
    step, lim = g.choice((0.01, 0.1, 0.37, 1.0)), g.uniform(0.5, 7)
    a, b, c = (g.uniform(1, 60) for _ in range(3))
    ts = times(step, lim)
    deg = [math.radians(i) for i in range(360)]
    xy = lambda zs: [(z.real, z.imag) for z in zs]
    e = lambda r, t: cmath.rect(r, t)
    name = g.choice(('lissajous', 'epicycloid', 'hypotrochoid', 'spirograph', 'circleinvolute', 'gear', 'heart', 'superellipse', 'squircle', 'cornuspiral', 'egg'))
    if name == 'lissajous':
        c, d, q = g.uniform(0, 6), g.uniform(0, 6), g.uniform(-3, 3)
        return name, (x, y, a, b, c, d, q, step, lim), [(x + a * math.cos(c * t + q), y + b * math.sin(d * t)) for t in ts]
    if name == 'epicycloid':
        return name, (x, y, a, b, step, lim), xy(z0 + e(a + b, t) - e(b, (a / b + 1) * t) for t in ts)
    if name == 'hypotrochoid':
        return name, (x, y, a, b, c, step, lim), xy(z0 + e(a - b, t) + e(c, (1 - a / b) * t) for t in ts)
    if name == 'spirograph':
        k, l = g.uniform(0.1, 0.9), g.uniform(0.1, 1)
        return name, (x, y, a, l, k, step, lim), xy(z0 + e(a * (1 - k), t) + e(a * l * k, -(1 - k) / k * t) for t in ts)
    if name == 'circleinvolute':
        return name, (x, y, a, step, lim), [(x + a * (math.cos(t) + t * math.sin(t)), y + a * (math.sin(t) - t * math.cos(t))) for t in ts]
    if name == 'gear':
        n, b = g.randint(3, 20), g.uniform(0.2, 20)
        return name, (x, y, a, b, n), xy(z0 + e(a + b * math.tanh(b * math.sin(n * t)), t) for t in deg)
    if name == 'heart':
        s = g.uniform(0.2, 6)
        return name, (x, y, s), [(x + s * 16 * math.sin(t) ** 3, y - s * (13 * math.cos(t) - 5 * math.cos(2 * t) - 2 * math.cos(3 * t) - math.cos(4 * t))) for t in deg]
    if name in ('superellipse', 'squircle'):
        m, n = (4, 4) if name == 'squircle' else (g.choice((0.5, 1, 2, 3, 4, 7.5)) for _ in range(2))
        if name == 'squircle':
            b = a
        w = lambda v, q, r: abs(v) ** (2 / q) * r * sgn(v)
        return name, (x, y, a) if name == 'squircle' else (x, y, a, b, m, n), [(x + w(math.cos(t), m, a), y + w(math.sin(t), n, b)) for t in deg]
    if name == 'cornuspiral':
        z, out = z0, []
        for t in deg:
            z += e(a * math.pi / 180, t * t)
            out.append(z)
        return name, (x, y, a), xy(out)
    a, b = g.randint(2, 90), g.randint(1, 40)
    if b >= a:
        a, b = b + 1, a
    return name, (x, y, a, b), None


def b_curves(X):
    while X.more():
        g = X.rng
        name, args, want = a_curve(g)
        inputs = dict(op='iter' + name, args=list(args))
        f = getattr(P2, {'squircle': 'itersquircle', 'superellipse': 'itersuperellipse', 'cornuspiral': 'itercornuspiral'}.get(name, 'iter' + name + ('curve' if name in ('lissajous', 'gear', 'heart', 'egg') else '')))
        got = must(call(lambda: list(f(*args))), f'{f.__name__}{args}', inputs)
        if any(type(c) is not int for p in got for c in p):
            raise Violation(f'{f.__name__}{args}: a coordinate is no whole number', inputs)
        if want is None:
            x, y, a, b = args
            k = a - b
            h = lambda u: math.sqrt(max(k - 2 * u + math.sqrt(4 * b * u + k * k), 0)) * math.sqrt(u) / math.sqrt(2)
            left = set(got)
            for px, py in got:
                u = px - x + (a >> 1)
                if not 0 <= u < a or (px, 2 * y - py) not in left:
                    raise Violation(f'{f.__name__}{args}: ({px},{py}) is outside of the egg or has no mirror image', inputs)
        else:
            near_all(f'{f.__name__}{args}', got, want, 1.0001, inputs)
        vert = getattr(P2, f.__name__[4:] + 'vert', None) or getattr(P2, f.__name__[4:].replace('curve', '') + 'vert', None)
        if vert and [tuple(p) for p in vert(*args)] != [tuple(p) for p in got]:
            raise Violation(f'{vert.__name__}{args} differs from {f.__name__}', inputs)
        X.case((name, args), f'{f.__name__}{args}')


def linked(pts):
    """do the points hang together (steps of at most one pixel)?"""
    left = set(pts)
    todo = [left.pop()]
    while todo:
        x, y = todo.pop()
        for p in ((x + u, y + v) for u in (-1, 0, 1) for v in (-1, 0, 1)):
            if p in left:
                left.remove(p)
                todo.append(p)
    return not left


def de_casteljau(p, u):
    p = [tuple(q) for q in p]
    while len(p) > 1:
        p = [tuple((1 - u) * a + u * b for a, b in zip(s, t)) for s, t in zip(p, p[1:])]
    return p[0]


def b_chains(X):
    while X.more():
        g = X.rng
        pts = [[g.randint(-60, 120), g.randint(-60, 120)] for _ in range(g.randint(1, 6))]
        kind = g.choice(('line', 'bezier', 'bezier', 'bspline', 'polygon', 'box', 'spiral'))
        inputs = dict(op=kind, points=pts)
        if kind == 'line':
            p, q = pts[0], pts[-1]
            got = [tuple(t) for t in P2.lineseg(p, q)]
            if got[0] != tuple(p) or got[-1] != tuple(q) or any(max(abs(a - c), abs(b - d)) > 1 for (a, b), (c, d) in zip(got, got[1:])):
                raise Violation(f'lineseg({p}, {q}) is no chain between the ends: {got}', inputs)
            n = max(abs(p[0] - q[0]), abs(p[1] - q[1])) or 1
            for x, y in got:
                if abs((x - p[0]) * (q[1] - p[1]) - (y - p[1]) * (q[0] - p[0])) > n:
                    raise Violation(f'lineseg({p}, {q}): ({x},{y}) is a pixel away from the line', inputs)
            ll = list(P2.iterparallelogram(p, pts[0], q))
            if [u for u, v in ll] != P2.lineseg(p, q):
                raise Violation(f'iterparallelogram({p}, {pts[0]}, {q})', inputs)
        elif kind in ('bezier', 'bspline'):
            closedcurve, back = g.random() < .5, g.random() < .5
            if kind == 'bezier':
                got = {tuple(t) for t in must(call(lambda: list(P2.iterbeziercurve(pts))), f'iterbeziercurve({pts})', inputs)}
                for u in (0, 0.25, 0.5, 0.75, 1):
                    e = de_casteljau(pts, u)
                    if not any(abs(a - e[0]) <= 1.01 and abs(b - e[1]) <= 1.01 for a, b in got):
                        raise Violation(f'iterbeziercurve({pts}) does not pass through {e}', inputs)
            else:
                if len(pts) < 3:
                    continue
                got = {tuple(t) for t in must(call(lambda: list(P2.iterbspline(pts, closedcurve, back))), f'iterbspline({pts}, {closedcurve}, {back})', inputs)}
            if got and not linked(got):
                raise Violation(f'{kind} curve of {pts} ({closedcurve}, {back}) has gaps', inputs)
            for i in range(2):
                lo, hi = min(p[i] for p in pts), max(p[i] for p in pts)
                if any(not lo <= p[i] <= hi for p in got):
                    raise Violation(f'{kind} curve of {pts} leaves the box of its control points', inputs)
        elif kind == 'polygon':
            x, y, r, n, ang = g.randint(-50, 50), g.randint(-50, 50), g.randint(1, 100), g.randint(3, 40), g.uniform(-400, 400)
            w = [math.radians(ang + 360 * i / n) for i in range(n)]
            want = [(x - r * math.sin(t), y - r * math.cos(t)) for t in w]
            inputs = dict(op='regpolygonvert', args=[x, y, r, n, ang])
            near_all(f'floatregpolygonvert({x}, {y}, {r}, {n}, {ang})', P2.floatregpolygonvert(x, y, r, n, ang), want, 1e-6, inputs)
            near_all(f'regpolygonvert({x}, {y}, {r}, {n}, {ang})', P2.regpolygonvert(x, y, r, n, ang), want, 0.5001, inputs)
        elif kind == 'box':
            got = P2.rectboundarycoords(pts)
            want = tuple((f(p[0] for p in pts), f(p[1] for p in pts)) for f in (min, max))
            if tuple(map(tuple, got)) != want:
                raise Violation(f'rectboundarycoords({pts}) = {got}', inputs)
        else:
            x, y, st, gr, n = pts[0][0], pts[0][1], g.randint(1, 5), g.choice((1, 1, 2)), g.randint(0, 5)
            got = P2.spiralcontrolpointsvert(x, y, st, gr, n)
            if len(got) != 4 * n + 1 or got[0] != [x, y] or any((p[0] != q[0]) == (p[1] != q[1]) for p, q in zip(got, got[1:])):
                raise Violation(f'spiralcontrolpointsvert({x}, {y}, {st}, {gr}, {n}) = {got}: sides do not alternate along the axes', inputs)
            d = [max(abs(p[0] - q[0]), abs(p[1] - q[1])) for p, q in zip(got, got[1:])]
            if any(a >= b for a, b in zip(d, d[1:])):
                raise Violation(f'spiralcontrolpointsvert({x}, {y}, {st}, {gr}, {n}): sides do not grow', inputs)
        X.case((kind, str(pts)), f'{kind} {pts}')


def b_solids(X):
    for name, faces in S.getshapesidedict().items():
        e = closed(faces)
        vert = getattr(S, name + 'vert')(10)
        if e or {i for f in faces for i in f} != set(range(len(vert))):
            raise Violation(f'faces of the {name} do not close up at edge {e}', dict(op=name))
    while X.more():
        g = X.rng
        cen = [g.randint(-50, 50) if g.random() < .7 else 0 for _ in range(3)]
        r, st, zl = g.randint(5, 100), g.choice((3, 5, 7, 10, 15, 20, 30, 36, 45, 50, 60, 90, 120, g.randint(3, 170))), g.randint(2, 100)
        kind = g.choice(('sphere', 'cylinder', 'cone', 'deca', 'icosa', 'surface', 'turn', 'sides'))
        inputs = dict(op=kind, center=cen, r=r, step=st, zlen=zl)
        what = f'{kind} around {cen}, radius {r}, step {st}, length {zl}'
        if kind == 'sphere':
            v, f = must(call(S.spherevertandsurface, cen, r, st), what, inputs)
            if any(abs(math.dist(p, cen) - r) > 1e-6 for p in v):
                raise Violation(f'{what}: a vertex is not on the sphere', inputs)
            if cen == [0, 0, 0] and (closed(f) or {i for t in f for i in t} != set(range(len(v)))):
                raise Violation(f'{what}: the faces do not close up at edge {closed(f)}', inputs)
        elif kind in ('cylinder', 'cone'):
            v, f = must(call(getattr(S, kind + 'vertandsurface'), cen, r, zl, st), what, inputs)
            for k, p in enumerate(v):
                if kind == 'cone' and k == 0:
                    ok = math.dist(p, [cen[0], cen[1], cen[2] - zl / 2]) < 1e-6
                else:
                    ok = abs(math.hypot(p[0] - cen[0], p[1] - cen[1]) - r) < 1e-6 and abs(abs(p[2] - cen[2]) - zl / 2) < 1e-6
                if not ok:
                    raise Violation(f'{what}: vertex {p} is not on the surface', inputs)
            if any(i >= len(v) or i < 0 for t in f for i in t):
                raise Violation(f'{what}: a face names a vertex that does not exist', inputs)
            for t in f[1:-1] if kind == 'cylinder' else f[:-1]:
                z = sorted(v[i][2] for i in t)
                if len(set(t)) != len(t) or z[0] == z[-1] or max(math.dist(v[i][:2], v[j][:2]) for i in t for j in t if (i and j) or kind == 'cylinder') > 2 * r * math.sin(math.radians(min(st, 90))) + 1e-6 and st < 90:
                    raise Violation(f'{what}: side {t} does not join neighbours', inputs)
        elif kind in ('deca', 'icosa'):
            v, f = S.decahedvertandsurface(r) if kind == 'deca' else S.icosahedvertandsurface(r)
            if closed(f) or {i for t in f for i in t} != set(range(len(v))) or len(f) != (10 if kind == 'deca' else 20):
                raise Violation(f'{what}: the faces do not close up', inputs)
        elif kind == 'surface':
            x1, y1, s = g.randint(-20, 20), g.randint(-20, 20), g.randint(1, 5)
            w, h = g.randint(1, 7), g.randint(1, 7)
            x2, y2 = x1 + w * s - g.randrange(s), y1 + h * s - g.randrange(s)
            fn = lambda x, y: x * y + x
            v, f = S.surfplot3Dvertandsurface(x1, y1, x2, y2, s, fn)
            inputs = dict(op='surfplot3Dvertandsurface', args=[x1, y1, x2, y2, s])
            if [tuple(p) for p in v] != [(x, y, fn(x, y)) for y in range(y1, y2, s) for x in range(x1, x2, s)]:
                raise Violation(f'surfplot3Dvertandsurface{x1, y1, x2, y2, s}: vertices', inputs)
            cells = {frozenset((x, y), ) if 0 else (x, y) for y in range(y1, y2 - s, s) for x in range(x1, x2 - s, s)}
            for t in f:
                q = [tuple(v[i][:2]) for i in t]
                lo = (min(p[0] for p in q), min(p[1] for p in q))
                if set(q) != {(lo[0] + a, lo[1] + b) for a in (0, s) for b in (0, s)} or lo not in cells:
                    raise Violation(f'surfplot3Dvertandsurface{x1, y1, x2, y2, s}: face {t} is no cell of the grid', inputs)
                cells.remove(lo)
            if cells:
                raise Violation(f'surfplot3Dvertandsurface{x1, y1, x2, y2, s}: cell {min(cells)} has no face', inputs)
        elif kind == 'turn':
            v = [[g.uniform(-50, 50) for _ in range(3)] for _ in range(5)]
            ang, disp, d = [g.uniform(-400, 400) for _ in range(3)], [0, 0, g.uniform(200, 500)], g.uniform(10, 500)
            inputs = dict(op='perspective', vertices=v, angles=ang, displacement=disp, distance=d)
            u, q = S.perspective(v, S.rotvec3D(*ang), disp, d)
            for i in range(5):
                for j in range(i):
                    if abs(math.dist(u[i], u[j]) - math.dist(v[i], v[j])) > 1e-6:
                        raise Violation(f'perspective{ang} changes the distance of two vertices', inputs)
                if any(abs(q[i][c] + d * u[i][c] / u[i][2]) > 1e-6 for c in range(2)):
                    raise Violation(f'perspective{ang}: the projection of {u[i]} is {q[i]}', inputs)
        else:
            v, f = S.cubevert(r), S.getshapesidedict()['cube']
            u, q = S.perspective(v, S.rotvec3D(*[g.uniform(0, 360) for _ in range(3)]), [0, 0, 500], 300)
            polys, normals = S.gensides((u, q), [10, 20], f)
            seen_, k = [], 0
            for t in f:
                a, b, c = (u[i] for i in t[:3])
                n = M.getnormvec(a, b, c)
                front = sum(p * m for p, m in zip(a, n))
                if abs(front) < 1e-6 * r * r * 500:
                    break
                seen_.append((t, front))
            else:
                for sg in (1, -1):
                    want = [[[q[i][0] + 10, q[i][1] + 20] for i in t] for t, fr in seen_ if sg * fr > 0]
                    if want == polys:
                        break
                else:
                    raise Violation(f'gensides shows neither all the sides of the cube that face the eye nor all that turn away', inputs)
                if len(normals) != len(polys):
                    raise Violation('gensides: as many normals as sides', inputs)
        X.case((kind, tuple(cen), r, st, zl), what)


def same(what, got, want, inputs, tol=1e-9):
    for u, v in zip(got, want):
        if not abs(u - v) <= tol * (1 + abs(v)):
            raise Violation(f'{what}: {tuple(got)}, expected {tuple(want)}', inputs)


def a_orbit(g):
    """-> name, arguments, start, step (of a point and its number)"""
    sin, cos = math.sin, math.cos
    a, b, c, d = (g.uniform(-2.5, 2.5) for _ in range(4))
    pick = g.choice(('ikeda', 'n', 'gumowskimira', 'peterdejong', 'clifford', 'fractaldream', 'hopalong', 'symmetricicon', 'duffing'))
    if pick == 'ikeda':
        return pick, (a, b / 3, c, d), 0j, lambda z, i: a + b / 3 * z * cmath.exp(1j * (c - d / (1 + abs(z) ** 2)))
    if pick == 'n':
        def nx(p, i):
            x = a * sin(a * p[1]) + b * cos(b * p[0])
            return x, c * sin(c * x) + d * cos(d * p[1])
        return pick, (a, b, c, d), (0, 0), nx
    if pick == 'gumowskimira':
        a, b = a / 2.5, g.uniform(.9, 1)
        fn = lambda x: a * x + 2 * (1 - a) * x * x / (1 + x * x) ** 2

        def nx(p, i):
            x = b * p[1] + fn(p[0])
            return x, fn(x) - p[0]
        s = g.uniform(-10, 10), g.uniform(-10, 10)
        return pick, (*s, a, b), s, nx
    if pick == 'peterdejong':
        return pick, (a, b, c, d), (0, 0), lambda p, i: (sin(a * p[1]) - cos(b * p[0]), sin(c * p[0]) - cos(d * p[1]))
    if pick == 'clifford':
        return pick, (a, b, c, d), (0, 0), lambda p, i: (sin(a * p[1]) + c * cos(a * p[0]), sin(b * p[0]) + d * cos(b * p[1]))
    if pick == 'fractaldream':
        return pick, (a, b, c, d), (.1, .1), lambda p, i: (sin(b * p[1]) + c * sin(b * p[0]), sin(a * p[0]) + d * sin(a * p[1]))
    if pick == 'hopalong':
        return pick, (a, b, c), (0, 0), lambda p, i: (p[1] - sgn(p[0]) * math.sqrt(abs(b * p[0] - c)), a - p[0])
    if pick == 'symmetricicon':
        s = complex(g.uniform(-.1, .1), g.uniform(-.1, .1))
        al, be, ga, om, la, n = g.uniform(1, 2), g.uniform(-.1, .1), g.uniform(-.2, .2), g.choice((0, g.uniform(-.2, .2))), g.uniform(-2, -1.5), g.randint(3, 9)
        return pick, (s.real, s.imag, al, be, ga, om, la, n), s, lambda z, i: (la + al * abs(z) ** 2 + be * (z ** n).real + om * 1j) * z + ga * z.conjugate() ** (n - 1)
    s, t0, dt = (a / 2, b / 2), g.choice((0, c, g.uniform(-1e5, 1e5))), g.uniform(.005, .1)
    w = g.uniform(.5, 2)
    return pick, (*s, t0, dt, c, d, w), s, lambda p, i: (p[0] + p[1] * dt, p[1] + (p[0] - p[0] ** 3 - c * p[1] + d * cos(w * (t0 + i * dt))) * dt)


def b_orbits(X):
    while X.more():
        g = X.rng
        if g.random() < .25:
            # recursive curves
            n = g.randint(0, 5)
            if g.random() < .5:
                x, y, u, v = (g.choice((g.randint(-100, 100), 2 ** g.randint(1, 7) )) for _ in range(4))
                kind = g.random() < .5
                w, h = abs(u) + 32, abs(v) + 32
                axis = (0, h, w, 0) if kind else (w, 0, 0, h)
                l = []
                inputs = dict(op='hilbertvert', args=[[x, y], list(axis), n])
                F.hilbertvert(l, (x, y), axis, n)
                if len(l) != 4 ** n:
                    raise Violation(f'hilbertvert({(x, y)}, {axis}, {n}): {len(l)} points', inputs)
                cells = {(math.floor((p - x) * 2 ** n / w), math.floor((q - y) * 2 ** n / h)) for p, q in l} if min(w, h) >= 4 * 2 ** n else None
                if cells is not None and cells != {(i, j) for i in range(2 ** n) for j in range(2 ** n)}:
                    raise Violation(f'hilbertvert({(x, y)}, {axis}, {n}) does not visit every cell once', inputs)
                for a, b in zip(l, l[1:]):
                    dx, dy = abs(a[0] - b[0]), abs(a[1] - b[1])
                    if not (abs(dx - w / 2 ** n) <= 1 and dy <= 1 or abs(dy - h / 2 ** n) <= 1 and dx <= 1):
                        raise Violation(f'hilbertvert({(x, y)}, {axis}, {n}) jumps from {a} to {b}', inputs)
            else:
                x, y, r, ang = g.randint(-100, 100), g.randint(-100, 100), g.randint(5, 200), g.uniform(-200, 200)
                inputs = dict(op='kochsnowflakevert', args=[x, y, r, ang, n])
                got = F.kochsnowflakevert(x, y, r, ang, n)
                c = P2.regpolygonvert(x, y, r, 3, ang)
                want = []
                for i in range(3):
                    p = [complex(*c[i]), complex(*c[(i + 1) % 3])]
                    for _ in range(n):
                        p = [q for a, b in zip(p, p[1:]) for q in (a, a + (b - a) / 3, (a + b) / 2 + (b - a) * 1j * math.sqrt(3) / 6, b - (b - a) / 3)] + p[-1:]
                    want += [(z.real, z.imag) for z in p]
                near_all(f'kochsnowflakevert({x}, {y}, {r}, {ang}, {n})', got, want, 1e-6, inputs)
            X.case(str(inputs), str(inputs))
            continue
        name, args, start, step = a_orbit(g)
        n = g.choice((0, 1, 2, 40))
        p = start
        for i in range(n):
            p = step(p, i)
            if not (abs(p) if isinstance(p, complex) else max(map(abs, p))) < 1e6:
                break
        else:
            i = n
        if i < n:       # runs away
            continue
        inputs = dict(op=name + 'attractorlist', args=[*map(repr, args), n])
        what = f'{name}attractorlist{(*args, n)}'
        got = must(call(getattr(F, name + 'attractorlist'), *args, n), what, inputs)
        if len(got) != n:
            raise Violation(f'{what}: {len(got)} points', inputs)
        p = start
        for i, q in enumerate(got):
            e = step(p, i)
            if isinstance(e, complex):
                same(f'{what}: point {i}', [q.real, q.imag], [e.real, e.imag], inputs, 1e-7)
            else:
                same(f'{what}: point {i}', q, e, inputs, 1e-7)
            p = q
        if n == 40 and g.random() < .3:
            picture(g, name, args, got, inputs)
        X.case((name, args, n), what)


def picture(g, name, args, orbit, inputs):
    """every cell of the picture holds the number of points in it, scaled to the colours of the depth"""
    w, h, bits = g.randint(2, 20), g.randint(2, 20), g.choice((1, 4, 8, 24))
    pts = [(p.real, p.imag) if isinstance(p, complex) else tuple(p) for p in orbit]
    lo = [min(p[i] for p in pts) for i in range(2)]
    hi = [max(p[i] for p in pts) for i in range(2)]
    if any(b - a < 1e-6 for a, b in zip(lo, hi)):
        return
    cell = lambda p: [(p[i] - lo[i]) * ((w, h)[i] - 1) / (hi[i] - lo[i]) for i in range(2)]
    if any(min(t % 1, -t % 1) < 1e-6 and lo[i] < p[i] < hi[i] for p in pts for i, t in enumerate(cell(p))):
        return      # a point on the border of two cells
    if name == 'duffing':
        bmp = B.plotattractor(orbit, w, h, bits)
    else:
        bmp = getattr(B, name + 'attractor')(w, h, bits, *args, len(orbit))
    top = {1: 1, 4: 15, 8: 255, 24: 0xffffff}[bits]
    bad = None
    for sx in (0, 1):
        for sy in (0, 1):
            # a point on the last border counts in the last cell, by a rounding error in the one before
            n = Counter(tuple(round(t) - s if t > m - 1 - 1e-6 else int(t + 1e-6) for t, m, s in zip(cell(p), (w, h), (sx, sy))) for p in pts)
            all_ = [n[x, y] for y in range(h) for x in range(w)]
            if min(all_) == max(all_):
                return
            wrong = [(x, y, n[x, y]) for y in range(h) for x in range(w)
                     if not -1 - 1e-6 <= B.getxybit(bmp, x, y) - (n[x, y] - min(all_)) * top / (max(all_) - min(all_)) <= 1e-6]
            if not wrong:
                return
            bad = bad or wrong[0]
    raise Violation(f'{name}attractor {args}: in a picture of {w} by {h} at {bits} bits the cell ({bad[0]},{bad[1]}) of {bad[2]} points has colour {B.getxybit(bmp, *bad[:2])}', dict(inputs, picture=[w, h, bits]))


BOUNDED = [Bounded('curves, concrete', b_curves, 'random parameters, centres up to 200, radii up to 60, some 10 to 700 steps', [f'primitives2D.{n}' for n in CURVES] +
                   ['primitives2D.itersuperellipse', 'primitives2D.itersquircle', 'primitives2D.itercornuspiral', 'primitives2D.itereggcurve'], quick=15, thorough=150),
           Bounded('chains and polygons, concrete', b_chains, 'up to 6 control points in a square of 180 pixels', ['primitives2D.lineseg', 'primitives2D.iterbeziercurve', 'primitives2D.iterbspline',
                   'primitives2D.iterparallelogram', 'primitives2D.regpolygonvert', 'primitives2D.rectboundarycoords', 'primitives2D.spiralcontrolpointsvert'], quick=15, thorough=150),
           Bounded('solids, concrete', b_solids, 'radii up to 100, steps from 3 degrees', ['solids3D.spherevertandsurface', 'solids3D.zlevelcoords', 'solids3D.genspheresurfaces', 'solids3D.cylindervertandsurface',
                   'solids3D.conevertandsurface', 'solids3D.decahedvertandsurface', 'solids3D.icosahedvertandsurface', 'solids3D.surfplot3Dvertandsurface', 'solids3D.perspective', 'solids3D.gensides'], quick=15, thorough=150),
           Bounded('orbits and recursive curves, concrete', b_orbits, 'orbits of up to 40 points, pictures of them up to 20 by 20, recursive curves up to order 5', ['fractals.hilbertvert', 'fractals.kochsnowflakevert',
                   *[f'fractals.{n}attractorlist' for n in ('ikeda', 'n', 'gumowskimira', 'peterdejong', 'clifford', 'fractaldream', 'hopalong', 'symmetricicon', 'duffing')], 'BITMAPlib.plotattractor', 'BITMAPlib.plotattractorcomplex'],
                   quick=15, thorough=150)]
