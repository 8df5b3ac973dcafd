"""C16: fractals: escape counts by their definition, every pixel of the region visited once and mapped linearly, the colour of the count at every pixel."""
import cmath
import inspect
import math
import random
import tempfile
import types
from array import array
from .common import *
from .contracts import *
from .c03 import real
from .c02 import after_plot
from pyvc import cx
with silent():
    from pythonbmp import fractals as FR, mathlib as ML
PROPERTY = 'C16'
ASSUMPTIONS = ['floating point is treated as real arithmetic and complex numbers as pairs of reals; powers with a symbolic exponent and the functions of cmath are functions of '
               'their arguments about which nothing is assumed but 0 ** 0 = 1 and that a power of a number that is not 0 is not 0 (overflow and rounding are outside of the proofs)',
               'the iteration limit is at least 1; regions are at least one pixel wide and high',
               'as in the code, the right-most column and the last row of the region given are not drawn (the file forms pass the width and the height of the image)',
               'the concrete comparison skips points whose count changes when the point moves by one part in 10^9 (a rounding difference may decide there)']

# ---- the definition of every escape function --------------------------------------
# start(P, Q, c, d) -> state; step(state, P, Q, c, d) -> next state; a verdict on the state after the step (or before it).
# The functions below are ordinary Python: the verifier executes them on symbolic states, the concrete oracle on numbers.


def at_point(P, Q, c, d):
    return (complex(P, Q),)


def at_zero(P, Q, c, d):
    return (complex(0, 0),)


def with_sum(P, Q, c, d):
    return (complex(P, Q), 0.0)


def s_multibrot(s, P, Q, c, d):
    return (s[0] ** d + complex(P, Q),)


def s_multicorn(s, P, Q, c, d):
    return (s[0].conjugate() ** d + complex(P, Q),)


def s_multijulia(s, P, Q, c, d):
    return (s[0] ** d + c,)


def s_spiral(s, P, Q, c, d):
    return (cmath.tan(s[0] * s[0] + c),)


def s_lambda(s, P, Q, c, d):
    return (c * s[0] * (1 - s[0]),)


def s_barnsley(s, P, Q, c, d):
    if s[0].real > 0:
        return (d * (s[0] - 1),)
    if s[0].real < 0:
        return (d * (s[0] + 1),)
    return (d * s[0],)


def s_ngon(s, P, Q, c, d):
    return ((s[0] ** d + c) / s[0],)


def s_sin(s, P, Q, c, d):
    z = c * cmath.sin(s[0])
    return (z, s[1] + z.imag)


def s_cos(s, P, Q, c, d):
    z = c * cmath.cos(s[0])
    return (z, s[1] + z.imag)


def s_tetration(s, P, Q, c, d):
    z = s[0] ** s[0]
    return (z, s[1] + z.imag)


def s_marek(s, P, Q, c, d):
    z = s[0] * (d + s[0])
    return (z, s[1] + abs(z.imag))


def bio(f):
    """the step of a biomorph: f(z) + z**d + c"""
    return f


def s_phase(s, P, Q, c, d):
    return (s[0] ** (d + abs(cmath.phase(s[0]))) + c,)


def s_bsin(s, P, Q, c, d):
    return (cmath.sin(s[0]) + s[0] ** d + c,)


def s_bcos(s, P, Q, c, d):
    return (cmath.cos(s[0]) + s[0] ** d + c,)


def s_bsinh(s, P, Q, c, d):
    return (cmath.sinh(s[0]) + s[0] ** d + c,)


def s_bcosh(s, P, Q, c, d):
    return (cmath.cosh(s[0]) + s[0] ** d + c,)


def s_btan(s, P, Q, c, d):
    return (cmath.tan(s[0]) + s[0] ** d + c,)


def s_btanh(s, P, Q, c, d):
    return (cmath.tanh(s[0]) + s[0] ** d + c,)


def s_bexp(s, P, Q, c, d):
    return (cmath.exp(s[0]) + s[0] ** d + c,)


def s_btet(s, P, Q, c, d):
    return (s[0] ** s[0] + s[0] ** d + c,)


def s_bconj(s, P, Q, c, d):
    return (s[0].conjugate() ** d + c,)


def outside(s, a):
    return abs(s[0]) > 2


def far(s, a):
    return abs(s[1]) > a


def both(s, a):
    return abs(s[0].real) > a and abs(s[0].imag) > a


def either(s, a):
    return abs(s[0].real) > a or abs(s[0].imag) > a


# name: (start, step, kind)     kind: what the count is once the orbit is out
#   disk   |z| > 2: the number of the iteration              ngon   the same, and also when z is 0 before the step
#   sum    |sum of the imaginary parts| > bound: the number of the iteration modulo the limit; at most `bound` iterations
#   bio    both parts beyond a: the number; only one of them: the limit         biovar   one of them: |z| rounded, modulo the limit
ESC = {
    'multibrot': (at_zero, s_multibrot, 'disk', 'd'), 'multicorn': (at_zero, s_multicorn, 'disk', 'd'), 'barnsleytree': (at_point, s_barnsley, 'disk', 'd'),
    'spiraljulia': (at_point, s_spiral, 'disk', 'c'), 'lambdafn': (at_point, s_lambda, 'disk', 'c'), 'multijulia': (at_point, s_multijulia, 'disk', 'cd'),
    'ngonfunc': (at_point, s_ngon, 'ngon', 'cd'), 'sinjulia': (with_sum, s_sin, 'sum', 'c'), 'cosjulia': (with_sum, s_cos, 'sum', 'c'),
    'marekdragon': (with_sum, s_marek, 'sum', 'd'), 'tetrationfn': (with_sum, s_tetration, 'sum', 'd'),
    'multibiomorph': (at_point, s_multijulia, 'bio', 'cd'), 'multibiomorphphasevariant': (at_point, s_phase, 'bio', 'cd'), 'multisinbiomorph': (at_point, s_bsin, 'bio', 'cd'),
    'multicosbiomorph': (at_point, s_bcos, 'bio', 'cd'), 'multisinhbiomorph': (at_point, s_bsinh, 'bio', 'cd'), 'multicoshbiomorph': (at_point, s_bcosh, 'bio', 'cd'),
    'multitanbiomorph': (at_point, s_btan, 'bio', 'cd'), 'multitanhbiomorph': (at_point, s_btanh, 'bio', 'cd'), 'multiexpbiomorph': (at_point, s_bexp, 'bio', 'cd'),
    'multi2ndtetrationbiomorph': (at_point, s_btet, 'bio', 'cd'), 'multizconjugatebiomorph': (at_point, s_bconj, 'bio', 'cd'), 'multibiomorphvariant': (at_point, s_multijulia, 'biovar', 'cd'),
}


def f_circle(P, Q, d, m):
    return round(abs(complex(P, Q) ** d)) % m


def f_hyperbola(P, Q, d, m):
    return round(abs(P ** d - Q ** d)) % m


def f_astroid(P, Q, r, m):
    return round(abs((P * P + Q * Q - r * r) ** 3 + 27 * (P * P) * (Q * Q) * (r * r))) % m


def f_lemniscate(P, Q, r, m):
    return int(abs((P * P + Q * Q) ** 2 - 2 * (r * r) * (P * P - Q * Q))) % m


def f_xor(P, Q, d, m):
    return ((int(P) ^ int(Q)) % d) % m


def f_xordiv(P, Q, d, m):
    return ((int(P) ^ int(Q)) // d) % m


FORM = {'multicircle': f_circle, 'multihyperbola': f_hyperbola, 'astroid': f_astroid, 'lemniscate': f_lemniscate, 'xorfn': f_xor, 'xordivfn': f_xordiv}
R_ = z3.RealSort()


class Orbit:
    """the count as a recursive function of the number of the iteration and the state before it"""
    def __init__(self, ctx, name, P, Q, c, d, m, bound, n):
        self.ctx, self.name = ctx, name
        self.P, self.Q, self.c, self.d, self.m, self.bound, self.n = P, Q, c, d, m, bound, n
        self.start, self.stepf, self.kind, _ = ESC[name]

    def flat(self, s):
        return [cx.r(p) for v in s for p in (cx.parts(v) if len(s) == 1 or v is s[0] else (v,))]

    def count(self, k, s):
        a = [lift(k)] + self.flat(s)
        return z3.Function('count_' + self.name, I, *[R_] * (len(a) - 1), I)(*a)

    def first(self):
        return self.ctx.call(self.start, [self.P, self.Q, self.c, self.d])

    def ask(self, f, s):
        """a yes or no question about a state, as a formula"""
        ctx = self.ctx
        p = [z3.If(v >= 0, v, -v) for v in (cx.r(s[0].re), cx.r(s[0].im))]
        if f is outside:
            h = cx.modulus(ctx, s[0])
            # for h >= 0: h > 2 exactly if h * h > 4   (lemma, discharged below)
            ctx.fact_once(('h2', h.get_id()), (h > 2) == (cx.r(ctx.mul(h, h)) > 4))
            return h > 2
        if f is far:
            return z3.If(cx.r(s[1]) >= 0, cx.r(s[1]), -cx.r(s[1])) > cx.r(self.bound)
        if f is both:
            return z3.And(p[0] > cx.r(self.bound), p[1] > cx.r(self.bound))
        return z3.Or(p[0] > cx.r(self.bound), p[1] > cx.r(self.bound))

    def unfold(self, k, s):
        """the defining equation at (k, s), for a k that is not beyond the last iteration"""
        ctx, m = self.ctx, lift(self.m)
        k = lift(k)
        here = self.count(k, s)
        ctx.fact(z3.Implies(k >= lift(self.n), here == m))
        if not ctx.decide(k < lift(self.n)):
            return
        if self.kind == 'ngon':
            if not ctx.decide(cx.nonzero(s[0])):
                ctx.fact(here == k)
                return
        t = ctx.call(self.stepf, [s, self.P, self.Q, self.c, self.d])
        go = self.count(k + 1, t)
        if self.kind in ('disk', 'ngon'):
            ctx.fact(here == z3.If(self.ask(outside, t), k, go))
        elif self.kind == 'sum':
            ctx.fact(here == z3.If(self.ask(far, t), lift(ctx.binop('%', k, self.m)), go))
        elif self.kind == 'bio':
            ctx.fact(here == z3.If(self.ask(both, t), k, z3.If(self.ask(either, t), m, go)))
        else:
            ctx.fact(here == z3.If(self.ask(either, t), lift(ctx.binop('%', ctx.call(round, [cx.modulus(ctx, t[0])]), self.m)), go))


class Orbiting(LoopSpec):
    """at the head of the k-th iteration the count of the state is the count of the start"""
    def __init__(self, o):
        self.o = o
        self.names = None

    def state(self, L):
        ctx, o = L.ctx, self.o
        fr = ctx.frames[-1].vars
        if self.names is None:
            mod = [n for n in ctx.assigned_names(L.node) if n in fr]
            z = [n for n in mod if isinstance(fr[n], (cx.Cx, complex))] or [n for n in mod if isinstance(fr[n], (int, float)) and n not in targets(L.node)]
            rest = [n for n in mod if n not in z and n not in targets(L.node) and (isinstance(fr[n], (int, float)) or is_sym(fr[n]))]
            self.names = z[:1] + (rest[:1] if o.kind == 'sum' else [])
        vals = [fr[n] for n in self.names]
        return tuple([vals[0] if isinstance(vals[0], cx.Cx) else cx.Cx(*cx.parts(vals[0]))] + vals[1:])

    def complex_locals(self, L):
        self.state(L)
        return self.names[:1]

    def inv(self, L, k):
        st = self.state(L)
        return [self.o.count(k, st) == self.o.count(0, self.o.first())] + ([cx.r(st[1]) >= 0] if self.o.name == 'marekdragon' else [])

    def fix(self, L, k):
        self.o.unfold(k, self.state(L))


def targets(node):
    return [n.id for n in __import__('ast').walk(node.target) if hasattr(n, 'id')] if hasattr(node, 'target') else []


def p_escape(name):
    def run(ctx):
        P, Q = z3.Reals('P Q')
        m = z3.Int('maxiter')
        ctx.fact(m >= 1)
        ctx.add_stride(m)
        ctx.ghost['congr'] = True
        start, step, kind, par = ESC[name]
        c = cx.Cx(z3.Real('c_re'), z3.Real('c_im'))
        d = z3.Real('d')
        f = getattr(FR, name)
        bound, n, extra = z3.Real('a'), m, []
        if name in ('barnsleytree', 'marekdragon'):
            d = cx.Cx(z3.Real('d_re'), z3.Real('d_im'))
        elif name == 'tetrationfn':
            d = bound = n = z3.Int('limit')
            ctx.fact(d >= 0)
        elif kind in ('disk', 'bio', 'biovar', 'ngon'):
            ctx.fact(d >= 0)
        if kind == 'sum' and name != 'tetrationfn':
            bound = n = z3.Int('lim')
            ctx.fact(bound >= 0)
            extra = [bound]
        elif kind in ('bio', 'biovar'):
            ctx.fact(bound >= 0)
            extra = [bound]
        o = Orbit(ctx, name, P, Q, c, d, m, bound, n)
        ctx.fact(z3.Implies(lift(n) <= 0, o.count(0, o.first()) == m))
        ctx.specs.append(lambda L, s={}: s.setdefault(0, Orbiting(o)))
        r = ctx.call(f, [P, Q] + ([c] if 'c' in par else []) + ([d] if 'd' in par else []) + [m] + extra)
        ctx.prove(lift(r) == o.count(0, o.first()), 'the result is the escape count of the point')
        ctx.prove(z3.And(lift(r) >= 0, lift(r) <= m), 'the count lies between 0 and the limit')
    return run


def p_form(name):
    def run(ctx):
        P, Q = z3.Reals('P Q')
        m = z3.Int('maxiter')
        ctx.fact(m >= 1)
        ctx.add_stride(m)
        ctx.ghost['congr'] = True
        ctx.ghost['pow'] = lambda a, b, r: z3.BoolVal(True)
        d = z3.Real('d')
        if name in ('xorfn', 'xordivfn'):
            d = z3.Int('d')
            ctx.ghost['bitfun'] = True
            ctx.fact(z3.And(d >= 1, P >= 0, Q >= 0))
            ctx.add_stride(d)
        if name == 'multicircle':
            ctx.fact(d >= 0)
        r = ctx.call(getattr(FR, name), [P, Q, d, m])
        e = ctx.call(FORM[name], [P, Q, d, m])
        ctx.prove(lift(r) == lift(e), 'the result is the value of the formula at the point')
        ctx.prove(z3.And(lift(r) >= 0, lift(r) < m), 'the result lies between 0 and the limit')
    return run


# ---- Newton's method -----------------------------------------------------------------

def n_step(z, f, fp):
    return z - f(z) / fp(z)


class Newton(LoopSpec):
    """the number of the iteration that meets the tolerance (-1: none) and the root found, as recursive functions of the iteration and the point before it"""
    def __init__(self, f, fp, tol, m, z0):
        self.f, self.fp, self.tol, self.m, self.z0 = f, fp, tol, m, z0
        self.name = None

    def fun(self, k, z):
        a = [lift(k), cx.r(z.re), cx.r(z.im)]
        return [z3.Function('newton_' + n, I, R_, R_, t)(*a) for n, t in (('k', I), ('re', R_), ('im', R_))]

    def state(self, L):
        fr = L.ctx.frames[-1].vars
        if self.name is None:
            self.name = next(n for n in L.ctx.assigned_names(L.node) if n in fr and isinstance(fr[n], cx.Cx))
        return fr[self.name]

    def inv(self, L, k):
        return [z3.And(*[a == b for a, b in zip(self.fun(k, self.state(L)), self.fun(0, self.z0))])]

    def fix(self, L, k):
        ctx, z = L.ctx, self.state(L)
        h = self.fun(k, z)
        if not ctx.decide(k < lift(self.m)):
            ctx.fact(h[0] == -1)
            return
        fp = ctx.call(self.fp, [z])
        if not ctx.decide(cx.nonzero(fp)):
            ctx.fact(h[0] == -1)
            return
        q = ctx.binop('/', ctx.call(self.f, [z]), fp)
        near = cx.modulus(ctx, q) < cx.r(self.tol)
        go = self.fun(lift(k) + 1, ctx.binop('-', z, q))
        ctx.fact(z3.And(*[a == z3.If(near, b, c) for a, b, c in zip(h, [lift(k), cx.r(z.re), cx.r(z.im)], go)]))


def p_newton(ctx):
    P, Q = z3.Reals('P Q')
    m = z3.Int('maxiter')
    ctx.fact(m >= 1)
    f, fp = [UFunc(n, lambda ctx, z, n=n: cx.Cx(*cx.fun(ctx, n, z))) for n in ('f', 'fprime')]
    tol = inspect.signature(ML.newtonmethod).parameters['tol'].default
    N = Newton(f, fp, tol, m, cx.Cx(P, Q))
    ctx.specs.append(lambda L: N)
    r = ctx.call(FR.newton, [P, Q, (f, fp), m])
    e = N.fun(0, cx.Cx(P, Q))
    ctx.prove(isinstance(r, tuple) and len(r) == 2, 'the result is a root and the number of an iteration')
    if r[0] is None:
        ctx.prove(z3.And(e[0] == -1, z3.BoolVal(r[1] is None)), 'no root is reported only if none is found within the limit')
    else:
        ctx.prove(z3.And(lift(r[1]) == e[0], cx.r(r[0].re) == e[1], cx.r(r[0].im) == e[2]), 'the root and the number of the iteration that found it')
        ctx.prove(z3.And(lift(r[1]) >= 0, lift(r[1]) < m), 'the number of the iteration is below the limit')


# ---- the iterators ---------------------------------------------------------------------

def walk(f, *args):
    """n: the number of points so far"""
    n = 0
    for p in f(*args):
        seen(n, p)
        n += 1
    return n


def seen(n, p):
    pass


class Window:
    """a region in any corner order and a domain"""
    def __init__(self, ctx):
        self.args = x1, y1, x2, y2 = z3.Ints('x1 y1 x2 y2')
        ctx.fact(z3.And(x1 != x2, y1 != y2))
        self.X1, self.X2 = (x1, x2) if ctx.decide(x1 < x2) else (x2, x1)
        self.Y1, self.Y2 = (y1, y2) if ctx.decide(y1 < y2) else (y2, y1)
        self.W, self.H = z3.Ints('W H')
        ctx.fact(z3.And(self.W == self.X2 - self.X1, self.H == self.Y2 - self.Y1, self.W >= 1, self.H >= 1))
        ctx.add_stride(self.W)
        self.dom = z3.Reals('Pmax Pmin Qmax Qmin')
        self.domain = ctx.mk('list', items=list(self.dom))

    def point(self, ctx, col, row):
        """the point of the domain a pixel stands for"""
        M, m, N, n = self.dom
        B = ctx.binop
        w, h = unlift(self.X2 - self.X1), unlift(self.Y2 - self.Y1)
        return B('+', m, B('*', col, B('/', B('-', M, m), w))), B('+', n, B('*', row, B('/', B('-', N, n), h)))


def p_map(ctx):
    w = Window(ctx)
    ctx.ghost['congr'] = True
    r = ctx.call(FR.mapfractaldomain, [*w.args, w.domain])
    a, b = ctx.seq_items(r)
    ctx.prove(z3.And(lift(a.length) == w.W, lift(b.length) == w.H), 'one entry for every column and one for every row')
    j = ctx.fresh('j')
    for s, n, o, i in ((a, w.W, w.X1, 0), (b, w.H, w.Y1, 1)):
        ctx.push()
        ctx.solver.add(j >= 0, j < n)
        v, p = s.view(j)
        ctx.prove(lift(p) == o + j, 'the entries are the columns and rows in order')
        e = w.point(ctx, j, j)[i]
        ctx.prove(real(v) == real(e), 'the position is mapped linearly into the domain')
        ctx.pop()


class Counted(LoopSpec):
    """nested loops over the rows and the columns: so many points have been seen"""
    def __init__(self, w):
        self.w = w

    def inv(self, L, k):
        f, ctx = frame_with(L.ctx, 'n', 'args'), L.ctx
        if f is None:
            return []
        row = lift(k if L.depth == 0 else ctx.loops[0].k)
        ctx.register_mult(self.w.W, row)
        return [lift(f['n']) == lift(ctx.mul(unlift(row), self.w.W)) + (0 if L.depth == 0 else lift(k))]


def c_seen(ctx, n, p):
    w = ctx.ghost['w']
    x, y, v = p
    col, row = unlift(lift(x) - w.X1), unlift(lift(y) - w.Y1)
    ctx.prove(z3.And(lift(x) >= w.X1, lift(x) < w.X2, lift(y) >= w.Y1, lift(y) < w.Y2), 'the pixel lies in the region', 'pre')
    ctx.register_mult(w.W, lift(row))
    ctx.prove(lift(n) == lift(ctx.mul(row, w.W)) + lift(col), 'the n-th pixel yielded is the n-th of the region, row by row', 'pre')
    P, Q = w.point(ctx, col, row)
    ctx.prove(lift(v) == lift(ctx.call(ctx.ghost['func'], [P, Q, *ctx.ghost['par']])), 'the value is the function at the point of the domain', 'pre')


def p_iter(f, npar):
    def run(ctx):
        w = ctx.ghost['w'] = Window(ctx)
        ctx.ghost['congr'] = True
        m = z3.Int('maxiter')
        c, d = cx.Cx(z3.Real('c_re'), z3.Real('c_im')), z3.Real('d')
        par = ctx.ghost['par'] = ([c, d] if npar == 2 else [d]) + [m]
        func = ctx.ghost['func'] = UFunc('count', lambda ctx, *a: z3.Function('value_at', *[R_] * len([p for v in a for p in cx.parts(v)]), I)(*[z3.simplify(cx.r(p)) for v in a for p in cx.parts(v)]))
        ctx.specs.append(lambda L: Counted(w))
        n = ctx.call(walk, [f, *w.args, *par[:-1], func, w.domain, m])
        rows = unlift(w.Y2 - w.Y1)
        ctx.register_mult(w.W, lift(rows))
        # W is X2 - X1, so the products with it are the same
        ctx.fact(lift(ctx.mul(rows, w.W)) == lift(ctx.mul(rows, unlift(w.X2 - w.X1))))
        ctx.prove(lift(n) == lift(ctx.mul(rows, w.W)), 'as many points as the region has pixels')
    return run


# every iterator: (escape function, the exponent it fixes, its parameters)
ITERS = {
    'itermandelbrot': ('multibrot', 2, ''), 'itertricorn': ('multicorn', 2, ''), 'itermultibrot': ('multibrot', None, 'd'), 'itermulticircle': ('multicircle', None, 'd'),
    'itermultihyperbola': ('multihyperbola', None, 'd'), 'itermultisuperellipse': ('multisuperellipse', None, 'd'), 'iterastroid': ('astroid', None, 'd'),
    'iterlemniscate': ('lemniscate', None, 'd'), 'itertetration': ('tetrationfn', None, 'd'), 'iterxorfractal': ('xorfn', None, 'd'), 'iterxordivfractal': ('xordivfn', None, 'd'),
    'itersinjulia': ('sinjulia', None, 'd'), 'itercosjulia': ('cosjulia', None, 'd'), 'iterspiraljulia': ('spiraljulia', None, 'd'), 'iterlamdbafractal': ('lambdafn', None, 'd'),
    'itermulticorn': ('multicorn', None, 'd'), 'iterbarnsleytree': ('barnsleytree', None, 'd'), 'itermarekdragon': ('marekdragon', 'turn', 'd'), 'iternewtonsfractal': ('newton', None, 'd'),
    'iterjulia': ('multijulia', 2, 'c'), 'itermultijulia': ('multijulia', None, 'cd'), 'iterngonfractal': ('ngonfunc', None, 'cd'),
    **{'iter' + n: (n, None, 'cd') for n in ('multibiomorphvariant', 'multibiomorph', 'multibiomorphphasevariant', 'multisinbiomorph', 'multicosbiomorph', 'multicoshbiomorph',
                                             'multisinhbiomorph', 'multitanbiomorph', 'multitanhbiomorph', 'multiexpbiomorph', 'multi2ndtetrationbiomorph', 'multizconjugatebiomorph')}}
FRM = 'pythonbmp.fractals'


def c_iter(npar):
    def c(ctx, x1, y1, x2, y2, *a):
        """yields every pixel of the region with the value of the function at its point, row by row    (proved above)"""
        g = ctx.ghost
        *par, func, dom, m = a
        ctx.prove(g.get('made') is None, 'the points are computed once', 'pre')
        g['made'] = True
        ctx.prove(and_(*[ctx.eq_val(u, v) for u, v in zip((x1, y1, x2, y2), g['xy'])], z3.BoolVal(dom is g['dom']), ctx.eq_val(m, g['m'])), 'the region, the domain and the limit are passed on', 'pre')
        ctx.prove(func is getattr(FR, g['efn']) and len(par) == len(g['expect']), f'the function is {g["efn"]}', 'pre')
        for u, v in zip(par, g['expect']):
            ctx.prove(ctx.eq_val(u, v), 'the parameters are passed on', 'pre')
        return SeqObj(g['n'], lambda j: g['item'](j))
    return c


def c_same(ctx, n, p):
    e = ctx.ghost['item'](n)
    ctx.prove(isinstance(p, tuple) and len(p) == 3 and and_(*[ctx.eq_val(u, v) for u, v in zip(p, e)]), 'the points are yielded as they come', 'pre')


class Rowless(LoopSpec):
    def inv(self, L, k):
        f = frame_with(L.ctx, 'n', 'args')
        return [] if f is None else [lift(f['n']) == lift(k)]


def p_wrap(name):
    def run(ctx):
        efn, fixed, pars = ITERS[name]
        g = ctx.ghost
        g['xy'] = z3.Ints('x1 y1 x2 y2')
        g['dom'] = ctx.mk('list', items=list(z3.Reals('Pmax Pmin Qmax Qmin')))
        g['m'], g['n'], g['efn'] = z3.Int('maxiter'), z3.Int('points'), efn
        ctx.fact(g['n'] >= 0)
        X, Y, V = [z3.Function(n, I, I) for n in 'XYV']
        g['item'] = lambda j: (X(lift(j)), Y(lift(j)), V(lift(j)))
        c, d = cx.Cx(z3.Real('c_re'), z3.Real('c_im')), z3.Real('d')
        g['expect'] = ([c] if 'c' in pars else []) + [d if fixed is None else fixed if fixed != 'turn' else ctx.call(cmath.exp, [ctx.binop('*', 2j * math.pi, d)])]
        ctx.specs.append(lambda L: Rowless())
        n = ctx.call(walk, [getattr(FR, name), *g['xy'], *([c] if 'c' in pars else []), *([d] if 'd' in pars else []), g['dom'], g['m']])
        ctx.prove(lift(n) == g['n'] and g.get('made') is True, 'as many points as computed')
    return run


# ---- drawing ---------------------------------------------------------------------------

def pixels(x1, y1, x2, y2):
    """what the iterators yield, proved above: every pixel of the region, row by row, with its count"""
    for y in range(y1, y2):
        for x in range(x1, x2):
            yield (x, y, count_at(x, y))


def count_at(x, y):
    pass


COUNT, MIX = z3.Function('count', I, I, I), z3.Function('mixed', I, I)


def count(ctx, x, y):
    t = COUNT(lift(x), lift(y))
    ctx.fact_once(('count', t.get_id()), z3.And(t >= 0, t <= ctx.ghost['m']))
    ctx.keep.append(t)
    return t


def c_mix(ctx, lum, fac):
    """a colour of 24 bits, a function of the luminosity for the factors given    (C03, C12)"""
    ctx.prove(fac is ctx.ghost['fac'], 'the factors are those given', 'pre')
    ctx.prove(z3.And(lift(lum) >= 0, lift(lum) <= 255), f'luminosity in 0..255 at {ctx.where()}', 'pre')
    t = MIX(lift(lum))
    ctx.fact_once(('mix', t.get_id()), z3.And(t >= 0, t < 1 << 24))
    ctx.keep.append(t)
    return t


def wrapped(v, bits):
    return unlift(lift(v) % (1 << bits)) if bits < 24 else v


def c_plot(ctx, a, x, y, c):
    """sets the pixel if it is inside to the colour, of which the bits beyond the depth are dropped    (proved: C02, here for colours beyond the depth)"""
    if not isinstance(a, Arr) or a.bmp is None:
        return NotImplemented
    if a.bmp.bits == 1:
        return c_plotxybit(ctx, a, x, y, c)
    ctx.prove(lift(c) >= 0, f'the colour is not negative at {ctx.where()}', 'pre')
    # the colour has been computed from the count; here it is replaced by the colour of the pixel, to which it is equal
    col = ctx.ghost['colour'](x, y)
    ctx.prove(lift(wrapped(c, a.bmp.bits)) == lift(col), 'the colour is the colour of the count', 'pre')
    return c_plotxybit(ctx, a, x, y, col)


def p_mask(bits):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        x, y, c, x2, y2 = z3.Ints('x y c x2 y2')
        ctx.fact(c >= 0)
        ctx.call(B.plotxybit, [a, x, y, c])
        after_plot(ctx, a, b, x, y, unlift(c % (1 << bits)), x2, y2, 'write')
    return run


def the_colour(ctx, bits, k):
    """the colour of the pixel (x, y)"""
    def col(x, y):
        n = lift(count(ctx, x, y))
        if bits == 24:
            t = MIX((255 - n) * 20 % 256)
            ctx.fact_once(('mix', t.get_id()), z3.And(t >= 0, t < 1 << 24))
            return t
        # a name for the colour, described once
        t = z3.Function('colour', I, I, I)(lift(x), lift(y))
        top = 1 << bits
        ctx.fact_once(('col', t.get_id()), z3.And(t >= 0, t < top, t == (n % top if bits == 1 or (k == 3 and bits in (4, 8)) else (top - 1 - n) % top)))
        ctx.keep.append(t)
        return t
    return col


def p_draw(f, bits, k, npar):
    def run(ctx):
        a, b = sym_bmp(ctx, bits)
        ctx.ghost['b'] = b
        m = ctx.ghost['m'] = z3.Int('maxiter')
        ctx.fact(m >= 1)
        x1, y1, x2, y2 = xy = z3.Ints('x1 y1 x2 y2')
        ctx.fact(z3.And(x1 < x2, y1 < y2))
        fac = ctx.ghost['fac'] = ctx.mk('list', items=list(z3.Reals('r g b')) if k == 3 else [Opaque('first'), Opaque('second')])
        dom = Opaque('domain')
        par = [cx.Cx(z3.Real('c_re'), z3.Real('c_im')), z3.Real('d')][2 - npar:]

        def it(ctx, *args):
            ctx.prove(len(args) == 6 + npar and all(p is q for p, q in zip(args, [*xy, *par, dom, m])), 'the iterator is asked for the region, the parameters, the domain and the limit', 'pre')
            return ctx.call(pixels, list(xy))
        col = ctx.ghost['colour'] = the_colour(ctx, bits, k)
        done = raster(x1, y1, x2 - 1, y2 - 1)
        if bits == 24:
            paint = lambda x, y, ch, o: z3.If(ch == 0, lift(col(x, y)) % 256, z3.If(ch == 1, (lift(col(x, y)) / 256) % 256, lift(col(x, y)) / 65536))
        else:
            paint = lambda x, y, o: lift(col(x, y))
        ctx.specs.append(lambda L: PixLoops(b, L, done, paint))
        ctx.call(f, [a, *xy, *par, UFunc('iterator', it), dom, fac, m])
        well_formed(ctx, a, b)
        header_frame(ctx, a, b.base, b.hdr)
        x, y = z3.Ints('px py')
        ctx.fact(b.inside(x, y))
        prove_pixel(ctx, b, a.view, x, y, z3.If(inrect(x, y, x1, y1, x2 - 1, y2 - 1), lift(col(x, y)), lift(b.pixel(ctx, b.base, x, y))), 'every pixel of the region has the colour of its count, no other changed')
    return run


# ---- the named drawing functions and their file forms ---------------------------------------

DRAW = {   # function: (iterator, the exponent it fixes, parameters)
    'mandelbrot': ('itermultibrot', 2, ''), 'tricorn': ('itermulticorn', 2, ''), 'julia': ('itermultijulia', 2, 'c'), 'multibrot': ('itermultibrot', None, 'd'),
    'multicircle': ('itermulticircle', None, 'd'), 'multihyperbola': ('itermultihyperbola', None, 'd'), 'multisuperellipse': ('itermultisuperellipse', None, 'd'),
    'astroidfractal': ('iterastroid', None, 'd'), 'lemniscatefractal': ('iterlemniscate', None, 'd'), 'xorfractal': ('iterxorfractal', None, 'd'), 'xordivfractal': ('iterxordivfractal', None, 'd'),
    'tetrationfractal': ('itertetration', None, 'd'), 'sinjulia': ('itersinjulia', None, 'd'), 'cosjulia': ('itercosjulia', None, 'd'), 'spiraljulia': ('iterspiraljulia', None, 'd'),
    'lambdafractal': ('iterlamdbafractal', None, 'd'), 'multicorn': ('itermulticorn', None, 'd'), 'barnsleytree': ('iterbarnsleytree', None, 'd'), 'marekdragon': ('itermarekdragon', None, 'd'),
    'multijulia': ('itermultijulia', None, 'cd'), 'ngonfractal': ('iterngonfractal', None, 'cd'),
    **{n: ('iter' + n, None, 'cd') for n in ('multibiomorphvariant', 'multibiomorph', 'multibiomorphphasevariant', 'multisinbiomorph', 'multicosbiomorph', 'multicoshbiomorph',
                                            'multisinhbiomorph', 'multitanbiomorph', 'multitanhbiomorph', 'multiexpbiomorph', 'multi2ndtetrationbiomorph', 'multizconjugatebiomorph')}}
SAVE = {'savemandelbrotfractal2file': ('mandelbrot', ''), 'savetricornfractal2file': ('tricorn', ''), 'savejuliafractal2file': ('julia', 'c'), 'savemarekdragon2file': ('marekdragon', 'd'),
        'savesinjulia2file': ('sinjulia', 'd'), 'savecosjulia2file': ('cosjulia', 'd'), 'savespiraljulia2file': ('spiraljulia', 'd'), 'savenewtonsfractal2file': ('newtonsfractal', 'd'),
        **{f'save{n}2file': (n, 'd') for n in ('lambdafractal', 'tetrationfractal', 'xorfractal', 'xordivfractal', 'astroidfractal', 'lemniscatefractal')},
        **{f'save{n}fractal2file': (n, 'd') for n in ('multibrot', 'multicircle', 'multihyperbola', 'multisuperellipse', 'multicorn', 'barnsleytree')},
        'savengonfractal2file': ('ngonfractal', 'cd'), 'savemultijuliafractal2file': ('multijulia', 'cd'),
        **{f'save{n}fractal2file': (n, 'cd') for n in DRAW if 'biomorph' in n}}


def params(pars):
    return ([cx.Cx(z3.Real('c_re'), z3.Real('c_im'))] if 'c' in pars else []) + ([z3.Real('d')] if 'd' in pars else [])


def same(ctx, a, b):
    return a is b if isinstance(b, (Arr, Opaque, types.FunctionType, str)) else not isinstance(a, (Arr, Opaque, types.FunctionType)) and ctx.eq_val(a, b)


def events(ctx, expected, what):
    got = ctx.ghost['log']
    ctx.prove(len(got) == len(expected) and all(g[0] == e[0] and len(g) == len(e) for g, e in zip(got, expected)), f'{what}: the steps are {[e[0] for e in expected]}', 'frame')
    if len(got) == len(expected):
        ctx.prove(and_(*[same(ctx, u, v) for g, e in zip(got, expected) for u, v in zip(g[1:], e[1:])]), f'{what}: every step gets the right arguments')


def rec(step, f, result=None):
    """records the call (the arguments in the order of the parameters)"""
    sig = inspect.signature(f)

    def c(ctx, *a, **k):
        ctx.ghost['log'].append((step, *sig.bind(*a, **k).arguments.values()))
        return result(ctx) if result else None
    return c


def p_named(name):
    def run(ctx):
        it, fixed, pars = DRAW[name]
        ctx.ghost['log'] = []
        bmp, dom, fac = Opaque('image'), Opaque('domain'), Opaque('factors')
        xy, m, par = list(z3.Ints('x1 y1 x2 y2')), z3.Int('maxiter'), params(pars)
        ctx.call(getattr(B, name), [bmp, *xy, *par, dom, fac, m])
        full = par + ([fixed] if fixed is not None else [])
        events(ctx, [('plotmultifractal' if len(full) == 1 else 'plotmultifractalcomplexpar', bmp, *xy, *full, getattr(FR, it), dom, fac, m)], name)
    return run


def p_save(name):
    def run(ctx):
        f, pars = SAVE[name]
        for bits, k in ((1, 3), (4, 3), (8, 3), (8, 2), (24, 3)):
            ctx.ghost['log'] = []
            x, y, m, par = z3.Int('x'), z3.Int('y'), z3.Int('maxiter'), params(pars)
            dom, bmp = Opaque('domain'), Opaque('image')
            fac = ctx.mk('list', items=list(z3.Ints('r g b')[:k]))
            ctx.ghost['bmp'] = bmp
            result = ctx.ghost['result'] = Opaque('result')
            r = ctx.call(getattr(B, name), ['file.bmp', x, y, *par, dom, fac, bits, m])
            pal = [] if bits == 24 else [('monochrome', bmp, fac)] if k == 3 else [('dichromatic', bmp, fac.items[0], fac.items[1])]
            events(ctx, [('new', x, y, bits), *pal, ('draw', bmp, 0, 0, x, y, *par, dom, fac, m), ('save', 'file.bmp', bmp)], f'{name}, {bits} bit, {k} factors')
            if name == 'savenewtonsfractal2file':
                ctx.prove(r is result, 'the roots found are returned')
    return run


def p_lemma(ctx):
    h = z3.Real('h')
    s = z3.Solver()
    s.add(h >= 0, (h > 2) != (h * h > 4))
    ctx.prove(z3.BoolVal(s.check() == z3.unsat), 'for h >= 0, h > 2 exactly if h * h > 4')


# ---- concrete oracle ---------------------------------------------------------------------

def spec_count(name, P, Q, c, d, m, a=5, lim=None, trace=None):
    """the count by its definition; None if the arithmetic overflows"""
    if name in FORM:
        return FORM[name](P, Q, d, m)
    if name == 'multisuperellipse':
        return abs(P ** d + Q ** d) % m
    start, step, kind, _ = ESC[name]
    if name == 'tetrationfn':
        a = n = d
    elif kind == 'sum':
        a = n = lim if lim is not None else inspect.signature(getattr(FR, name)).parameters['lim'].default
    else:
        n = m
    s = start(P, Q, c, d)
    for k in range(n):
        if trace is not None:
            trace.append(s[0])
        if kind == 'ngon' and s[0] == 0:
            return k
        try:
            s = step(s, P, Q, c, d)
            if kind in ('disk', 'ngon') and outside(s, a):
                return k
            if kind == 'sum' and far(s, a):
                return k % m
            if kind == 'bio' and both(s, a):
                return k
            if kind == 'bio' and either(s, a):
                return m
            if kind == 'biovar' and either(s, a):
                return round(abs(s[0])) % m
        except OverflowError:
            if name == 'tetrationfn':
                return k % m
            raise
    return m


def settled_count(name, P, Q, c, d, m, **kw):
    """the count, or None if a rounding difference could decide it (nearby orbits separate, or end elsewhere) or the arithmetic overflows"""
    try:
        orbit = []
        v = spec_count(name, P, Q, c, d, m, trace=orbit, **kw)
        for e in (1e-9, -1e-9):
            near = []
            if spec_count(name, P * (1 + e) + e, Q * (1 - e) - e, c, d, m, trace=near, **kw) != v and name != 'multisuperellipse':
                return None
            if any(not abs(z - y) <= 1e-3 * (1 + abs(z)) for z, y in zip(orbit, near)):
                return None
        return v
    except (OverflowError, ZeroDivisionError):
        return None


def parameter(rng, name):
    if name == 'tetrationfn':
        return rng.choice((3, 7, 20))
    if name in ('sinjulia', 'cosjulia', 'spiraljulia', 'lambdafn', 'barnsleytree'):
        return complex(rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2))
    if name == 'marekdragon':
        return rng.random()
    if name in ('xorfn', 'xordivfn'):
        return rng.randint(1, 9)
    if name in ('astroid', 'lemniscate'):
        return rng.uniform(.3, 3)
    return rng.choice((2, 2, 3, 4, 2.5)) if name in ('multibrot', 'multicorn', 'multijulia', 'ngonfunc', 'multicircle') or 'bio' in name else rng.choice((2, 3, 4))


def conc_escape(name, P, Q, c, d, m, kw):
    inputs = dict(function=name, P=P, Q=Q, c=str(c), d=str(d), maxiter=m, **kw)
    cd = ESC.get(name, (0, 0, 0, 'd'))[3]
    par = ([c] if 'c' in cd else []) + ([d] if 'd' in cd else [])
    e = settled_count(name, P, Q, c, d, m, **kw)
    if e is None:
        return False
    r = must(call(getattr(FR, name), P, Q, *par, m, *kw.values()), name, inputs)
    if abs(r - e) > (1e-6 if isinstance(e, float) else 0):
        raise Violation(f'{name} at ({P}, {Q}) with {par}, limit {m}: {r}, by its definition {e}', inputs)
    return True


def b_escape(X):
    rng = X.rng

    def one(name):
        c, d = complex(rng.uniform(-1.2, 1.2), rng.uniform(-1.2, 1.2)), parameter(rng, name)
        if ESC.get(name, (0, 0, 0, 'd'))[3] == 'c':
            c = d
        m = rng.choice((1, 2, 7, 20, 255, 300))
        big = name in ('xorfn', 'xordivfn', 'multicircle', 'multihyperbola', 'multisuperellipse')
        P, Q = [rng.choice((0.0, 1.0, rng.uniform(0, 60) if name[:3] == 'xor' else rng.uniform(-30, 30) if big else rng.uniform(-2, 2))) for _ in 'PQ']
        kind = ESC.get(name, (0, 0, 'form'))[2]
        kw = {}
        if kind in ('bio', 'biovar') and rng.random() < .4:
            kw = dict(a=rng.choice((1, 2, 10)))
        elif kind == 'sum' and name != 'tetrationfn' and rng.random() < .4:
            kw = dict(lim=rng.choice((3, 10, 50)))
        if name == 'marekdragon':
            d = cmath.exp(2j * math.pi * d)
        if conc_escape(name, P, Q, c, d, m, kw):
            X.case((name, P, Q, c, d, m), f'{name} at ({P:.3f}, {Q:.3f})')
    names = [*ESC, *FORM, 'multisuperellipse']
    for name in names:
        for _ in range(25):
            one(name)
    while X.more():
        one(rng.choice(names))


class Dual:
    """a number and its derivative"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __mul__(self, o):
        o = o if isinstance(o, Dual) else Dual(o, 0)
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a)

    def __sub__(self, o):
        o = o if isinstance(o, Dual) else Dual(o, 0)
        return Dual(self.a - o.a, self.b - o.b)

    def __add__(self, o):
        o = o if isinstance(o, Dual) else Dual(o, 0)
        return Dual(self.a + o.a, self.b + o.b)
    __rmul__, __radd__ = __mul__, __add__

    def __pow__(self, n):
        r = Dual(1, 0)
        for _ in range(n):
            r = r * self
        return r


def spec_newton(z, f, fp, m, tol=1e-08):
    for k in range(m):
        if fp(z) == 0:
            return None, None
        dz = f(z) / fp(z)
        if abs(dz) < tol:
            return z, k
        z = z - dz
    return None, None


def conc_newton(key, P, Q, m):
    f, fp = FR.funcparamdict()[key]
    inputs = dict(function='newton', key=key, P=P, Q=Q, maxiter=m)
    g = Dual(complex(P, Q), 1)
    pt = complex(round(P), round(Q))
    d = f(Dual(pt, 1)).b
    if d != fp(pt):
        raise Violation(f'funcparamdict[{key}]: the derivative at {pt} is {fp(pt)}, not {d}', inputs)
    e = spec_newton(complex(P, Q), f, fp, m)
    e2 = spec_newton(complex(P + 1e-10, Q - 1e-10), f, fp, m)
    if (e[0] is None) != (e2[0] is None) or e[0] is not None and (e[1] != e2[1] or abs(e[0] - e2[0]) > 1e-6):
        return False
    r = must(call(FR.newton, P, Q, (f, fp), m), 'newton', inputs)
    if (r[0] is None) != (e[0] is None) or e[0] is not None and (r[1] != e[1] or abs(r[0] - e[0]) > 1e-6):
        raise Violation(f'newton({key}) at ({P}, {Q}), limit {m}: {r}, by the method {e}', inputs)
    if r[0] is not None and abs(f(r[0])) > 1e-6:
        raise Violation(f'newton({key}) at ({P}, {Q}): {r[0]} is not a root', inputs)
    return True


def b_newton(X):
    while X.more():
        key, P, Q, m = X.rng.choice(list(FR.funcparamdict())), X.rng.uniform(-3, 3), X.rng.uniform(-3, 3), X.rng.choice((1, 5, 40, 100))
        if conc_newton(key, P, Q, m):
            X.case((key, P, Q, m), f'polynomial {key} at ({P:.3f}, {Q:.3f})')


def escape_of(draw):
    """escape function, the exponent fixed and whether the parameter turns into a point of the unit circle"""
    it, fixed, pars = DRAW[draw]
    efn, f2, _ = ITERS[it]
    return efn, fixed if fixed is not None else None, f2 == 'turn', pars


def drawn_colour(n, bits, fac):
    if n is None:
        return None
    top = 1 << bits
    if bits == 24:
        lum = (255 - n) * 20 % 256
        return sum(int(f * lum) << s for f, s in zip(fac, (16, 8, 0)))
    n = int(n)
    return n % top if bits == 1 or len(fac) == 3 and bits in (4, 8) else (top - 1 - n) % top


def the_counts(draw, xy, c, d, dom, m):
    efn, fixed, turn, pars = escape_of(draw)
    if fixed is not None:
        d = fixed
    if turn:
        d = cmath.exp(2j * math.pi * d)
    if ESC.get(efn, (0, 0, 0, 'd'))[3] == 'c':
        c = d
    x1, y1, x2, y2 = min(xy[0], xy[2]), min(xy[1], xy[3]), max(xy[0], xy[2]), max(xy[1], xy[3])
    Pmax, Pmin, Qmax, Qmin = dom
    return {(x, y): settled_count(efn, Pmin + (x - x1) * (Pmax - Pmin) / (x2 - x1), Qmin + (y - y1) * (Qmax - Qmin) / (y2 - y1), c, d, m) for y in range(y1, y2) for x in range(x1, x2)}


def check_pixels(what, b, b0, counts, bits, fac, inputs, efn):
    w, h, _ = geom(b0)
    e = wf(b, w, h, bits)
    if e:
        raise Violation(f'{what}: not a well-formed bitmap: {e}', inputs)
    if bytes(b[:HDR[bits]]) != bytes(b0[:HDR[bits]]):
        raise Violation(f'{what}: the header or palette changed', inputs)
    g, g0 = grid(b), grid(b0)
    for y in range(h):
        for x in range(w):
            if (x, y) in counts:
                v = drawn_colour(counts[x, y], bits, fac)
                if v is None or efn == 'multisuperellipse' and bits == 1:
                    continue
                if efn == 'multisuperellipse' and any(abs((v >> s & 255) - (g[y][x] >> s & 255)) <= 1 for s in (0, 8, 16)):
                    continue    # counts with a fraction: the last bit depends on the rounding
            else:
                v = g0[y][x]
            if g[y][x] != v:
                raise Violation(f'{what}: pixel ({x},{y}) is {g[y][x]:#x}, expected {v:#x}' + (f' (count {counts[x, y]})' if (x, y) in counts else ' as before'), inputs)


def conc_draw(draw, b0, xy, c, d, dom, fac, m):
    w, h, bits = geom(b0)
    efn, fixed, turn, pars = escape_of(draw)
    inputs = dict(function=draw, w=w, h=h, bits=bits, region=xy, c=str(c), d=str(d), domain=dom, factors=fac, maxiter=m)
    b = b0[:]
    counts = {k: v for k, v in the_counts(draw, xy, c, d, dom, m).items() if 0 <= k[0] < w and 0 <= k[1] < h}
    par = ([c] if 'c' in pars else []) + ([d] if 'd' in pars else [])
    r = call(getattr(B, draw), b, *xy, *par, list(dom), fac, m)
    if r[0] != 'ok' and ('OverflowError' in str(r) and None in counts.values() or 'ZeroDivision' in str(r)):
        return False
    must(r, f'{draw}{xy}', inputs)
    check_pixels(f'{draw} {bits} bit {xy}', b, b0, counts, bits, fac, inputs, efn)
    # the iterator by itself: every pixel once, row by row
    return True


def conc_save(draw, name, w, h, bits, c, d, dom, fac, m):
    efn, fixed, turn, pars = escape_of(draw)
    inputs = dict(function=name, w=w, h=h, bits=bits, c=str(c), d=str(d), domain=dom, factors=fac, maxiter=m)
    par = ([c] if 'c' in pars else []) + ([d] if 'd' in pars else [])
    counts = the_counts(draw, (0, 0, w, h), c, d, dom, m)
    with tempfile.TemporaryDirectory() as t:
        p = t + '/f.bmp'
        r = call(getattr(B, name), p, w, h, *par, list(dom), fac, bits, m)
        if r[0] != 'ok' and ('OverflowError' in str(r) and None in counts.values() or 'ZeroDivision' in str(r)):
            return
        must(r, name, inputs)
        b = array('B', open(p, 'rb').read())
    b0 = B.newBMPwithPAL(w, h, bits, fac)
    check_pixels(f'{name} {bits} bit', b, b0, counts, bits, fac, inputs, efn)


def b_draw(X):
    rng = X.rng
    files = {v[0]: k for k, v in SAVE.items()}

    def one(draw, bits):
        efn, fixed, turn, pars = escape_of(draw)
        w, h = rng.randint(2, 9), rng.randint(2, 8)
        c, d = complex(rng.uniform(-1, 1), rng.uniform(-1, 1)), parameter(rng, efn)
        big = efn in ('xorfn', 'xordivfn', 'multicircle', 'multihyperbola', 'multisuperellipse')
        s = rng.uniform(5, 40) if big else rng.uniform(.2, 2)
        o = [0, 0] if efn[:3] == 'xor' else [rng.uniform(-1, 1) - s / 2 for _ in 'PQ']
        dom = (o[0] + s, o[0], o[1] + s, o[1])
        m = rng.choice((3, 20, 255, 255, 600))
        fac = [rng.choice((0, .3, .5, 1)) for _ in range(3)] if bits == 24 or rng.random() < .6 else [rng.randrange(1 << 24), rng.randrange(1 << 24)]
        x1, x2 = rng.sample(range(-2, w + 3) if rng.random() < .2 else range(w + 1), 2)
        y1, y2 = rng.sample(range(-2, h + 3) if rng.random() < .2 else range(h + 1), 2)
        if conc_draw(draw, mkbmp(w, h, bits, rng), (x1, y1, x2, y2), c, d, dom, fac, m):
            X.case((draw, bits, w, h, x1, y1, x2, y2, m), f'{draw} {bits} bit {w}x{h} region ({x1},{y1},{x2},{y2})')
        if draw in files and rng.random() < .4:
            # the palette built from three factors is that of the file
            conc_save(draw, files[draw], w, h, bits, c, d, dom, fac, m)
    for draw in DRAW:
        for bits in BITS:
            one(draw, bits)
    while X.more():
        one(rng.choice(list(DRAW)), rng.choice(BITS))


def conc_newtons(w, h, bits, key, dom, m, rng):
    d = FR.funcparamdict()[key]
    fac = [[rng.choice((0, .3, .5, 1)) for _ in range(3)] for _ in range(8)]
    b0 = mkbmp(w, h, bits, rng)
    b = b0[:]
    inputs = dict(function='newtonsfractal', w=w, h=h, bits=bits, key=key, domain=dom, maxiter=m)
    r = must(call(B.newtonsfractal, b, 0, 0, w, h, d, list(dom), fac, m), 'newtonsfractal', inputs)
    Pmax, Pmin, Qmax, Qmin = dom
    roots, g, g0 = [], grid(b), grid(b0)
    for y in range(h):
        for x in range(w):
            P, Q = Pmin + x * (Pmax - Pmin) / w, Qmin + y * (Qmax - Qmin) / h
            e = spec_newton(complex(P, Q), *d, m)
            e2 = spec_newton(complex(P + 1e-10, Q - 1e-10), *d, m)
            if (e[0] is None) != (e2[0] is None) or e[0] is not None and (e[1] != e2[1] or abs(e[0] - e2[0]) > 1e-6):
                return
            if e[0] is None:
                v = g0[y][x]
            else:
                i = next((i for i, t in enumerate(roots) if abs(t - e[0]) < .01), len(roots))
                if i == len(roots):
                    roots.append(e[0])
                v = sum(int(f * ((255 - e[1]) * 20 % 256)) << s for f, s in zip(fac[i], (16, 8, 0))) if bits == 24 else (1 << bits) - 1 - e[1] % (1 << bits)
            if g[y][x] != v:
                raise Violation(f'newtonsfractal {bits} bit: pixel ({x},{y}) is {g[y][x]:#x}, expected {v:#x} (root and iteration {e})', inputs)
    if len(r) != len(roots) or any(abs(u - v) > 1e-6 for u, v in zip(r, roots)):
        raise Violation(f'newtonsfractal reports the roots {r}, found {roots}', inputs)


def b_newtons(X):
    while X.more():
        w, h, bits, key, m = X.rng.randint(1, 7), X.rng.randint(1, 7), X.rng.choice(BITS), X.rng.choice(list(FR.funcparamdict())), X.rng.choice((2, 8, 40))
        o, s = X.rng.uniform(-2, 1), X.rng.uniform(.2, 3)
        conc_newtons(w, h, bits, key, (o + s, o, o + s, o + .1), m, X.rng)
        X.case((w, h, bits, key, m, o, s), f'{bits} bit {w}x{h} polynomial {key}')


INL = ('props.c16',)
PROOFS = [Proof('lemma: the square of the modulus', [], p_lemma)]
for _n in ESC:
    PROOFS.append(Proof(f'{_n}: escape count', [f'fractals.{_n}'] + (['fractals.biomorphfunc'] if ESC[_n][2] == 'bio' else []), p_escape(_n), inline_modules=INL))
for _n in FORM:
    PROOFS.append(Proof(f'{_n}: formula', [f'fractals.{_n}'], p_form(_n), inline_modules=INL))
PROOFS.append(Proof('newton: the root and the iteration', ['fractals.newton', 'mathlib.newtonmethod'], p_newton, inline_modules=INL))
PROOFS.append(Proof('mapfractaldomain', ['fractals.mapfractaldomain', 'primitives2D.sortrecpoints'], p_map, inline_modules=INL))
PROOFS.append(Proof('itermultifractal', ['fractals.itermultifractal'], p_iter(FR.itermultifractal, 1), registry={('props.c16', 'seen'): c_seen}, inline_modules=INL))
PROOFS.append(Proof('itermultifractalcomplexpar', ['fractals.itermultifractalcomplexpar'], p_iter(FR.itermultifractalcomplexpar, 2), registry={('props.c16', 'seen'): c_seen}, inline_modules=INL))
for _n in ITERS:
    PROOFS.append(Proof(_n, [f'fractals.{_n}'], p_wrap(_n), registry={('props.c16', 'seen'): c_same, (FRM, 'itermultifractal'): c_iter(1), (FRM, 'itermultifractalcomplexpar'): c_iter(2)},
                        inline_modules=INL))
for _b in (4, 8):
    PROOFS.append(Proof(f'plotxybit, colours beyond the depth, {_b} bit', ['BITMAPlib.plotxybit'], p_mask(_b), registry=reg(), inputs=bmp_inputs(None), hints=small))
for _b, _k in ((1, 3), (1, 2), (4, 3), (4, 2), (8, 3), (8, 2), (24, 3)):
    for _f, _p in (('plotmultifractal', 1), ('plotmultifractalcomplexpar', 2)):
        PROOFS.append(Proof(f'{_f}, {_b} bit, {_k} factors', [f'BITMAPlib.{_f}'], p_draw(getattr(B, _f), _b, _k, _p),
                            registry={**REGP, (LIB, 'plotxybit'): c_plot, ('pythonbmp.colors', 'colormix'): c_mix, ('props.c16', 'count_at'): count}, inline_modules=INL, inputs=bmp_inputs(None), hints=small))
for _n in DRAW:
    PROOFS.append(Proof(f'{_n} (drawing)', [f'BITMAPlib.{_n}'], p_named(_n), registry={(LIB, 'plotmultifractal'): rec('plotmultifractal', B.plotmultifractal), (LIB, 'plotmultifractalcomplexpar'): rec('plotmultifractalcomplexpar', B.plotmultifractalcomplexpar)}))
for _n in SAVE:
    PROOFS.append(Proof(_n, [f'BITMAPlib.{_n}', 'BITMAPlib.savefractal2file' if SAVE[_n][1] == '' else 'BITMAPlib.savemultifractal2file' if SAVE[_n][1] == 'd' else 'BITMAPlib.savefractalwith2param2file'],
                        p_save(_n), registry={(LIB, 'newBMP'): rec('new', B.newBMP, lambda ctx: ctx.ghost['bmp']), (LIB, 'setBMP2invshiftedmonochrome'): rec('monochrome', B.setBMP2invshiftedmonochrome), (LIB, 'setBMP2dichromaticpal'): rec('dichromatic', B.setBMP2dichromaticpal),
                                              (LIB, SAVE[_n][0]): rec('draw', getattr(B, SAVE[_n][0]), lambda ctx: ctx.ghost['result']), (LIB, 'saveBMP'): rec('save', B.saveBMP)}))
BOUNDED = [Bounded('escape counts, concrete', b_escape, 'random points, parameters, bounds and limits for every escape function', ['fractals.multisuperellipse'], quick=8),
           Bounded('the method of Newton, concrete', b_newton, 'every polynomial of the table at random points; its derivative at the nearest whole point, by dual numbers', ['fractals.funcparamdict'], quick=4),
           Bounded('drawing and saving, concrete', b_draw, 'every drawing function on images up to 9x8 pixels of every depth, regions in any corner order, sometimes partly outside; the file forms', ['BITMAPlib.newBMPwithPAL'], quick=25),
           Bounded('newtonsfractal, concrete', b_newtons, 'images up to 7x7 pixels, every polynomial of the table', ['BITMAPlib.newtonsfractal'], quick=6)]
