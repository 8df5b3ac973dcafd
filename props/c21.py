"""C21: vector and number helpers equal their definitions."""
from fractions import Fraction as Fr
import math
from .common import *
from .contracts import *
from pythonbmp import mathlib as M
PROPERTY = 'C21'
ASSUMPTIONS = ['floating point numbers are treated as mathematical reals in the proofs; the bounded part runs the real functions on exact fractions and on floats']
Rl = z3.RealSort()


def P(ctx, a, b):
    """product in the polynomial normal form the verifier uses"""
    return lift(ctx.mul(a, b))


def vec(ctx, name, n=None):
    """a list of reals: of unknown length, or of a given one"""
    if n is None:
        f = z3.Function(name, I, Rl)
        m = z3.Int('n')
        ctx.fact(m >= 1)
        return ctx.mk('list', length=m, view=lambda j: f(lift(j))), f, m
    xs = [z3.Real(f'{name}{i}') for i in range(n)]
    return ctx.mk('list', items=list(xs)), xs, n


def pointwise(ctx, r, n, f, label):
    ctx.prove(eqv(r.length, n), f'{label}: length')
    j = ctx.fresh('j')
    ctx.push()
    ctx.solver.add(j >= 0, j < lift(n))
    ctx.prove(lift(r.view(j)) == f(j), f'{label}: every component')
    ctx.pop()


def p_comp(name, op):
    def run(ctx):
        u, f, n = vec(ctx, 'u')
        v, g, _ = vec(ctx, 'v')
        if name == 'divvect':
            j = z3.Int('jq')
            ctx.fact(z3.ForAll([j], g(j) != 0))
            r = ctx.call(M.divvect, [u, v])
            ctx.prove(eqv(r.length, n), 'length')
            j = ctx.fresh('j')
            ctx.solver.add(j >= 0, j < n)
            ctx.prove(P(ctx, r.view(j), g(j)) == f(j), 'every component')
            return
        r = ctx.call(getattr(M, name), [u, v])
        pointwise(ctx, r, n, lambda j: op(ctx, f(j), g(j)), name)
    return run


def p_scalar(ctx):
    u, f, n = vec(ctx, 'u')
    s, lo, hi = z3.Reals('s lo hi')
    pointwise(ctx, ctx.call(M.scalarmulvect, [u, s]), n, lambda j: P(ctx, f(j), s), 'scalarmulvect')
    pointwise(ctx, ctx.call(M.setmaxvec, [u, hi]), n, lambda j: z3.If(f(j) > hi, hi, f(j)), 'setmaxvec')
    ctx.assume(lo <= hi)
    pointwise(ctx, ctx.call(M.setminmaxvec, [u, lo, hi]), n, lambda j: z3.If(f(j) > hi, hi, z3.If(f(j) < lo, lo, f(j))), 'setminmaxvec')


def p_dot(ctx):
    ctx.ghost['congr'] = True
    u, f, n = vec(ctx, 'u')
    v, g, _ = vec(ctx, 'v')
    prove_sum(ctx, ctx.call(M.dotprod, [u, v]), n, lambda j: P(ctx, f(j), g(j)), 'dotprod is the sum of the products')
    o = ctx.call(M.isorthogonal, [u, v])
    S = find_sum(ctx, n, lambda j: P(ctx, f(j), g(j)))
    ctx.prove(S is not None, 'isorthogonal uses the sum of the products')
    if S is not None:
        ctx.prove(lift(o) == (S == 0), 'orthogonal if the inner product is 0')
    m = ctx.call(M.mean, [u])
    S = find_sum(ctx, n, f)
    ctx.prove(S is not None, 'mean uses the sum of the elements')
    if S is not None:
        ctx.prove(P(ctx, m, z3.ToReal(n)) == S, 'mean times the count is the sum')


def p_scalars(ctx):
    x, a, b, f, v, w = z3.Reals('x a b f v w')
    p = lambda r, e, n: ctx.prove(lift(r) == e, n)
    call = lambda g, *args: ctx.call(g, list(args))
    p(call(M.setmax, x, b), z3.If(x > b, b, x), 'setmax')
    p(call(M.setmin, x, a), z3.If(x < a, a, x), 'setmin')
    p(call(M.lerp, a, b, f), a + P(ctx, b - a, f), 'lerp')
    p(call(M.sign, x), z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))), 'sign')
    ctx.prove(call(M.isinrange, x, b, a) == z3.And(x > a, x < b), 'isinrange')
    ctx.assume(a <= b)
    e = z3.If(x < a, a, z3.If(x > b, b, x))
    p(call(M.setminmax, x, a, b), e, 'setminmax')
    p(call(M.clamp, x, a, b), e, 'clamp')
    t = call(M.invlerp, a, b, v)
    ctx.prove(z3.Implies(a != b, P(ctx, t, b - a) == v - a), 'invlerp inverts lerp')
    t = lift(call(M.invlerp, a, b, call(M.lerp, a, b, f)))
    ctx.prove(z3.Implies(a != b, P(ctx, t, b - a) == P(ctx, f, b - a)), 'invlerp undoes lerp')


def p_ints(ctx):
    x, lo, hi = z3.Ints('x lo hi')
    x1, y1, x2, y2 = z3.Ints('x1 y1 x2 y2')
    call = lambda g, *args: ctx.call(g, list(args))
    c = call(M.centerpoint, x1, y1, x2, y2)
    ctx.prove(z3.And(lift(c[0]) == (x1 + x2) / 2, lift(c[1]) == (y1 + y2) / 2), 'centerpoint')
    m = call(M.mirror, x, lo)
    ctx.prove(and_(eqv(m[0], x - lo), eqv(m[1], x + lo)), 'mirror')
    q = ctx.call(M.mirror1stquad, [x1, y1, ctx.mk('list', items=[x2, y2])])
    want = [(x1 - x2, y1 + y2), (x1 + x2, y1 + y2), (x1 - x2, y1 - y2), (x1 + x2, y1 - y2)]
    for i, (ex, ey) in enumerate(want):
        r = ctx.get_index(q, i)
        ctx.prove(and_(eqv(r.view(0), ex), eqv(r.view(1), ey)), f'mirror1stquad point {i}')
    s = ctx.call(M.swapxy, [ctx.mk('list', items=[x1, y1])])
    ctx.prove(and_(eqv(s.view(0), y1), eqv(s.view(1), x1)), 'swapxy')
    d = ctx.call(M.delta, [ctx.mk('list', items=[x1, y1])])
    ctx.prove(eqv(d, y1 - x1), 'delta')
    ctx.assume(lo <= hi)
    ctx.prove(lift(call(M.intsetminmax, x, lo, hi)) == z3.If(x < lo, lo, z3.If(x > hi, hi, x)), 'intsetminmax')


def p_3d(ctx):
    u, U, _ = vec(ctx, 'u', 3)
    v, V, _ = vec(ctx, 'v', 3)
    w, W, _ = vec(ctx, 'w', 3)
    c = ctx.call(M.crossprod3d, [u, v])
    Q = lambda a, b: P(ctx, a, b)
    e = [Q(U[1], V[2]) - Q(U[2], V[1]), Q(U[2], V[0]) - Q(U[0], V[2]), Q(U[0], V[1]) - Q(U[1], V[0])]
    for i in range(3):
        ctx.prove(lift(c.view(i)) == e[i], f'cross product component {i}')
    d = ctx.call(M.det3D, [u, v, w])
    x = sum(Q(U[i], Q(V[(i + 1) % 3], W[(i + 2) % 3])) - Q(U[i], Q(V[(i + 2) % 3], W[(i + 1) % 3])) for i in range(3))
    ctx.prove(lift(d) == x, 'determinant')
    n = ctx.call(M.getnormvec, [u, v, w])
    A = [V[i] - U[i] for i in range(3)]
    Bv = [W[i] - U[i] for i in range(3)]
    for i in range(3):
        t = Q(A[(i + 1) % 3], Bv[(i + 2) % 3]) - Q(A[(i + 2) % 3], Bv[(i + 1) % 3])
        ctx.prove(lift(n.view(i)) == t, f'normal vector component {i}')

def p_vectors2(ctx):
    ctx.ghost['congr'] = True
    u, f, n = vec(ctx, 'u')
    v, g, _ = vec(ctx, 'v')
    w, h, _ = vec(ctx, 'w')
    s = z3.Real('s')
    ctx.assume(s != 0)
    r = ctx.call(M.scalardivvect, [u, s])
    ctx.prove(eqv(r.length, n), 'scalardivvect: length')
    j = ctx.fresh('j')
    ctx.solver.add(j >= 0, j < n)
    ctx.prove(P(ctx, r.view(j), s) == f(j), 'scalardivvect: every component')
    pair = ctx.mk('list', items=[u, v])
    pointwise(ctx, ctx.call(M.addvectpairlist, [pair]), n, lambda j: f(j) + g(j), 'addvectpairlist')
    pointwise(ctx, ctx.call(M.addvecttripletlist, [ctx.mk('list', items=[u, v, w])]), n, lambda j: f(j) + g(j) + h(j), 'addvecttripletlist')
    for name, args, want in (('trans', [pair, w], (lambda j: f(j) + h(j), lambda j: g(j) + h(j))),
                             ('addvectlist', [pair, ctx.mk('list', items=[w, w])], (lambda j: f(j) + h(j), lambda j: g(j) + h(j))),
                             ('mirrorvec', [u, v], (lambda j: f(j) - g(j), lambda j: f(j) + g(j)))):
        r = ctx.call(getattr(M, name), args)
        ctx.prove(eqv(r.length, 2), f'{name}: two vectors')
        for k in range(2):
            pointwise(ctx, ctx.get_index(r, k), n, want[k], f'{name} [{k}]')


def p_stat(ctx):
    u, f, n = vec(ctx, 'u')
    v, g, _ = vec(ctx, 'v')
    N = z3.ToReal(n)
    d = ctx.call(M.variance, [u])
    S = find_sum(ctx, n, f)
    ctx.prove(S is not None, 'variance uses the sum of the elements')
    ctx.prove(eqv(d.length, n), 'variance: length')
    j = ctx.fresh('j')
    ctx.push()
    ctx.solver.add(j >= 0, j < n)
    ctx.prove(P(ctx, f(j) - lift(d.view(j)), N) == S, 'variance: deviation of every component from the mean')
    ctx.pop()
    for name, args, term in (('vmag', [u], lambda j: P(ctx, f(j), f(j))), ('dist', [u, v], lambda j: P(ctx, f(j) - g(j), f(j) - g(j)))):
        r = lift(ctx.call(getattr(M, name), args))
        Q = find_sum(ctx, n, term)
        ctx.prove(Q is not None, f'{name} uses the sum of the squares')
        if Q is not None:
            ctx.prove(z3.And(r >= 0, z3.Or(Q < 0, P(ctx, r, r) == Q)), f'{name} is the root of the sum of the squares')


def p_smooth(ctx):
    ctx.ghost['congr'] = True
    a, b, v = z3.Reals('a b v')
    differ = ctx.decide(a != b)
    t = ctx.call(M.invlerp, [a, b, v])
    if not differ:
        ctx.prove(lift(t) == 1, 'invlerp of a point interval')

    def power(x, k):
        return x if k == 1 else P(ctx, x, power(x, k - 1))
    polys = (('smoothstep', {2: 3, 3: -2}), ('smootherstep', {5: 6, 4: -15, 3: 10}), ('smootheststep', {7: -20, 6: 70, 5: -84, 4: 35}))
    for name, co in polys:
        ctx.prove(lift(ctx.call(getattr(M, name), [a, b, v])) == sum(c * power(lift(t), k) for k, c in co.items()), name)
    if differ:
        x = ctx.call(M.lerp, [a, b, v])
        q = lift(ctx.call(M.invlerp, [a, b, x]))
    else:
        q = z3.RealVal(1)
    for name, co in polys:
        e = a + P(ctx, b - a, sum(c * power(q, k) for k, c in co.items()))
        ctx.prove(lift(ctx.call(getattr(M, name + 'lerp'), [a, b, v])) == e, name + 'lerp')


def p_plane(ctx):
    ctx.ghost['congr'] = True
    a, b, c, x1, y1, x2, y2 = z3.Reals('a b c x1 y1 x2 y2')
    L = lambda *t: ctx.mk('list', items=list(t))
    for name, want in (('mirrorx', [(a - c, b), (a + c, b)]), ('mirrory', [(a, b - c), (a, b + c)])):
        r = ctx.call(getattr(M, name), [L(a, b), c])
        for k in range(2):
            q = ctx.get_index(r, k)
            ctx.prove(and_(eqv(q.length, 2), eqv(q.view(0), want[k][0]), eqv(q.view(1), want[k][1])), f'{name} [{k}]')
    r = ctx.call(M.range2baseanddelta, [L(a, b)])
    ctx.prove(and_(eqv(ctx.get_index(r, 0), a), eqv(ctx.get_index(r, 1), b - a)), 'range2baseanddelta')
    r = ctx.call(M.rotvec2D, [L(a, b), L(x1, y1)])
    ctx.prove(and_(eqv(r.view(0), P(ctx, a, y1) - P(ctx, b, x1)), eqv(r.view(1), P(ctx, a, x1) + P(ctx, b, y1))), 'rotvec2D')
    r = ctx.call(M.adddimz, [L(L(a, b), L(x1, y1)), c])
    for k, (p, q) in enumerate(((a, b), (x1, y1))):
        t = ctx.get_index(r, k)
        ctx.prove(and_(eqv(t.view(0), p), eqv(t.view(1), q), eqv(t.view(2), c)), f'adddimz [{k}]')
    ctx.assume(x1 != x2)
    s = ctx.call(M.slope, [L(x1, y1), L(x2, y2)])
    ctx.prove(P(ctx, s, x2 - x1) == y2 - y1, 'slope')


def p_lsm(ctx):
    ctx.ghost['congr'] = True
    n = z3.Int('n')
    ctx.fact(n >= 2)
    fx, fy = z3.Function('px', I, Rl), z3.Function('py', I, Rl)
    pts = ctx.mk('list', length=n, view=lambda j: ctx.mk('list', items=[fx(lift(j)), fy(lift(j))]))
    x, y = z3.Real('qx'), z3.Real('qy')
    r = ctx.call(M.pivotlist, [pts])
    ctx.prove(eqv(r.length, 2), 'pivotlist: two rows')
    pointwise(ctx, ctx.get_index(r, 0), n, lambda j: fx(j), 'pivotlist, first row')
    pointwise(ctx, ctx.get_index(r, 1), n, lambda j: fy(j), 'pivotlist, second row')
    N = z3.ToReal(n)
    m = None
    ctx.trydepth += 1
    try:
        m = lift(ctx.call(M.LSMslope, [pts]))
    except PyExc:       # only where the abscissae are all equal
        pass
    ctx.trydepth -= 1
    S = [find_sum(ctx, n, t) for t in (lambda j: fx(j), lambda j: fy(j), lambda j: P(ctx, fx(j), fy(j)), lambda j: P(ctx, fx(j), fx(j)))]
    ctx.prove(all(t is not None for t in S), 'LSMslope uses the sums of x, y, xy and xx')
    if all(t is not None for t in S):
        sx, sy, sxy, sxx = S
        if m is None:
            ctx.prove(P(ctx, N, sxx) == P(ctx, sx, sx), 'LSMslope fails only on a vertical line')
            return
        ctx.prove(P(ctx, m, P(ctx, N, sxx) - P(ctx, sx, sx)) == P(ctx, N, sxy) - P(ctx, sx, sy), 'LSMslope solves the normal equations')


def p_std(ctx):
    ctx.ghost['congr'] = True
    u, f, n = vec(ctx, 'u')
    N = z3.ToReal(n)
    d = ctx.call(M.variance, [u])
    r = lift(ctx.call(M.StdDev, [u]))
    Q = find_sum(ctx, n, lambda j: P(ctx, d.view(j), d.view(j)))
    ctx.prove(Q is not None, 'StdDev uses the sum of the squared deviations')
    if Q is not None:
        z = ctx.fresh_real('z')
        ctx.fact(z == P(ctx, r, r))
        ctx.prove(and_(r >= 0, P(ctx, N, z) == Q), 'StdDev is the root of the mean squared deviation')


def p_more(ctx):
    """derived vector forms, each against the function it is derived from"""
    ctx.ghost['congr'] = True
    u, f, n = vec(ctx, 'u')
    v, g, _ = vec(ctx, 'v')
    mu, mv = lift(ctx.call(M.vmag, [u])), lift(ctx.call(M.vmag, [v]))
    ctx.assume(z3.And(mu != 0, mv != 0, P(ctx, mu, mv) != 0))
    j = ctx.fresh('j')
    for name in ('normvec', 'dircos'):
        r = ctx.call(getattr(M, name), [u])
        ctx.prove(eqv(r.length, n), f'{name}: length')
        ctx.push()
        ctx.solver.add(j >= 0, j < n)
        ctx.prove(P(ctx, r.view(j), mu) == f(j), f'{name}: every component')
        ctx.pop()
    dot = lift(ctx.call(M.dotprod, [u, v]))
    c = ctx.call(M.cosaffin, [u, v])
    ctx.prove(lift(c) == lift(ctx.binop('/', dot, ctx.mul(mu, mv))), 'cosaffin: inner product by the product of the magnitudes')
    m = lift(ctx.call(M.mean, [u]))
    ctx.assume(m != 0)
    ctx.prove(lift(ctx.call(M.coefvar, [u])) == lift(ctx.binop('/', ctx.call(M.StdDev, [u]), m)), 'coefvar: deviation by mean')
    r = ctx.call(M.addvectinlist, [ctx.mk('list', items=[u, v, u])])
    pointwise(ctx, r, n, lambda j: 2 * f(j) + g(j), 'addvectinlist')
    r = ctx.call(M.meanlist, [ctx.mk('list', items=[u, v])])
    ctx.prove(and_(eqv(r.length, 2), eqv(r.view(0), m), eqv(r.view(1), ctx.call(M.mean, [v]))), 'meanlist')
    r = ctx.call(M.dirdeg, [u])
    pointwise(ctx, r, n, lambda j: lift(ctx.call(math.degrees, [f(j)])), 'dirdeg')


def p_round(ctx):
    u, f, n = vec(ctx, 'u')
    for name, args, get in (('roundvect', [u], lambda r: r), ('roundvectlist', [ctx.mk('list', items=[u])], lambda r: ctx.get_index(r, 0))):
        r = get(ctx.call(getattr(M, name), args))
        ctx.prove(eqv(r.length, n), f'{name}: length')
        j = ctx.fresh('j')
        ctx.push()
        ctx.solver.add(j >= 0, j < n)
        e = lift(r.view(j))
        ctx.prove(e.is_int() and z3.And(2 * (z3.ToReal(e) - f(j)) <= 1, 2 * (f(j) - z3.ToReal(e)) <= 1), f'{name}: the nearest integer to every component')
        ctx.pop()


def p_coords(ctx):
    """sine and cosine are any functions"""
    ctx.ghost['congr'] = True
    r, t, p, z = z3.Reals('r t p z')
    L = lambda *t: ctx.mk('list', items=list(t))
    sin, cos = [lambda x, f=f: lift(ctx.call(f, [x])) for f in (math.sin, math.cos)]
    for name, args, want in (('polar2rectcoord2D', (r, t), (P(ctx, r, cos(t)), P(ctx, r, sin(t)))),
                             ('cylindrical2rectcoord3D', (r, t, z), (P(ctx, r, cos(t)), P(ctx, r, sin(t)), z)),
                             ('spherical2rectcoord3D', (r, t, p), (P(ctx, P(ctx, r, sin(p)), cos(t)), P(ctx, P(ctx, r, sin(p)), sin(t)), P(ctx, r, cos(p))))):
        q = ctx.call(getattr(M, name), [L(*args)])
        ctx.prove(and_(eqv(q.length, len(want)), *[eqv(q.view(i), w) for i, w in enumerate(want)]), name)


def p_bytes(ctx):
    n = z3.Int('n')
    ctx.fact(n >= 1)
    U, V = [byte_view(ctx, z3.Function(nm, I, I)) for nm in 'uv']
    u, v = [ctx.mk('list', length=n, view=w) for w in (U, V)]
    j = ctx.fresh('j')
    ctx.solver.add(j >= 0, j < n)
    a, b = U(j), V(j)
    A, O = bits8(ctx, a), bits8(ctx, b)
    for name, op in (('xorvect', lambda x, y: z3.If(x == y, 0, 1)), ('andvect', lambda x, y: z3.If(z3.And(x == 1, y == 1), 1, 0)), ('orvect', lambda x, y: z3.If(z3.Or(x == 1, y == 1), 1, 0))):
        r = ctx.call(getattr(M, name), [u, v])
        ctx.prove(eqv(r.length, n), f'{name}: length')
        for i, t in enumerate(bits8(ctx, r.view(j))):
            ctx.prove(lift(t) == op(lift(A[i]), lift(O[i])), f'{name}: bit {i} of every component')


def p_pearson(ctx):
    ctx.ghost['congr'] = True
    n = z3.Int('n')
    ctx.fact(n >= 3)
    fx, fy = z3.Function('px', I, Rl), z3.Function('py', I, Rl)
    pts = ctx.mk('list', length=n, view=lambda j: ctx.mk('list', items=[fx(lift(j)), fy(lift(j))]))
    N = z3.ToReal(n)
    ctx.trydepth += 1
    try:
        m = ctx.call(M.LSMslope, [pts])
        rows = ctx.call(M.pivotlist, [pts])
        mx, my = [lift(ctx.call(M.mean, [ctx.get_index(rows, i)])) for i in range(2)]
        b = lift(ctx.call(M.LSMYint, [pts]))
        ctx.prove(b + P(ctx, m, mx) == my, 'LSMYint: the line goes through the mean point')
    except PyExc:
        pass
    try:
        r = ctx.call(M.PearsonsR, [pts])
    except PyExc:
        return
    finally:
        ctx.trydepth -= 1
    S = [find_sum(ctx, n, t) for t in (lambda j: fx(j), lambda j: fy(j), lambda j: P(ctx, fx(j), fy(j)), lambda j: P(ctx, fx(j), fx(j)), lambda j: P(ctx, fy(j), fy(j)))]
    ctx.prove(all(t is not None for t in S), 'PearsonsR uses the sums of x, y, xy, xx and yy')
    if any(t is None for t in S):
        return
    sx, sy, sxy, sxx, syy = S
    A = lambda t: z3.If(t >= 0, t, -t)
    root = ctx.call(math.sqrt, [ctx.mul(ctx.call(abs, [P(ctx, N, sxx) - P(ctx, sx, sx)]), ctx.call(abs, [P(ctx, N, syy) - P(ctx, sy, sy)]))])
    ctx.prove(lift(r) == lift(ctx.binop('/', P(ctx, N, sxy) - P(ctx, sx, sy), root)), 'PearsonsR: the covariance by the root of the product of the variances')
    ctx.prove(lift(ctx.call(M.Rsquare, [pts])) == P(ctx, r, r), 'Rsquare: the square')


# ---- concrete oracle: exact fractions through the real functions ------------
def close(a, b, tol=1e-9):
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def same(r, e, tol):
    if isinstance(e, (list, tuple)):
        return isinstance(r, (list, tuple)) and len(r) == len(e) and all(same(x, y, tol) for x, y in zip(r, e))
    if isinstance(e, bool) or isinstance(r, bool):
        return bool(r) == bool(e)
    if r is None or e is None:
        return r is e
    if not isinstance(r, (int, float, complex, Fr)):
        return False
    return close(r, e, tol) if tol else r == e


def chk(name, args, e, tol=1e-9):
    import copy
    inputs = dict(function=name, args=args)
    keep = copy.deepcopy(args)
    r = must(call(getattr(M, name), *args), name, inputs)
    if not isinstance(r, (list, tuple, int, float, complex, bool, Fr, type(None))):
        r = list(r)
    if not same(r, e, tol):
        raise Violation(f'{name}{args} = {r}, expected {e}', inputs)
    if repr(keep) != repr(args):
        raise Violation(f'{name} changed its arguments', inputs)


def ss(a, b, v, poly):
    t = (v - a) / (b - a) if b != a else 1
    return poly(t)


def one(rng, exact):
    n = rng.randint(1, 7)
    num = (lambda: Fr(rng.randint(-60, 60), rng.randint(1, 9))) if exact else (lambda: rng.choice([rng.uniform(-50, 50), float(rng.randint(-9, 9)), rng.randint(-20, 20)]))
    tol = 0 if exact else 1e-9
    V = lambda m=None: [num() for _ in range(m or n)]
    u, v, s = V(), V(), num()
    chk('addvect', (u, v), [a + b for a, b in zip(u, v)], tol)
    chk('subvect', (u, v), [a - b for a, b in zip(u, v)], tol)
    chk('mulvect', (u, v), [a * b for a, b in zip(u, v)], tol)
    nz = [a or Fr(1) for a in v]
    chk('divvect', (u, nz), [a / b for a, b in zip(u, nz)], tol)
    chk('scalarmulvect', (u, s), [a * s for a in u], tol)
    chk('scalardivvect', (u, s or 1), [a / (s or 1) for a in u], tol)
    chk('intscalarmulvect', (u, s), [round(a * s) for a in u], tol)
    chk('dotprod', (u, v), sum(a * b for a, b in zip(u, v)), tol)
    chk('roundvect', (u,), [round(a) for a in u], tol)
    chk('roundvectlist', ([u, v],), [[round(a) for a in u], [round(a) for a in v]], tol)
    chk('trans', ([u, v], u), [[a + b for a, b in zip(u, u)], [a + b for a, b in zip(v, u)]], tol)
    chk('mean', (u,), sum(u) / n, tol)
    chk('meanlist', ([u, v],), [sum(u) / n, sum(v) / n], tol)
    chk('variance', (u,), [a - sum(u) / n for a in u], tol)
    ex = [Fr(a) for a in u]
    mu = sum(ex) / n
    chk('StdDev', (u,), math.sqrt(sum((a - mu)**2 for a in ex) / n), 1e-6)
    chk('vmag', (u,), math.sqrt(sum(Fr(a)**2 for a in u)), 1e-9)
    chk('dist', (u, v), math.sqrt(sum((Fr(a) - Fr(b))**2 for a, b in zip(u, v))), 1e-9)
    if any(a != 0 for a in u):
        mg = math.sqrt(sum(Fr(a)**2 for a in u))
        chk('dircos', (u,), [float(a) / mg for a in u], 1e-9)
        chk('normvec', (u,), [float(a) / mg for a in u], 1e-9)
    lo, hi = sorted((num(), num()))
    x = rng.choice([num(), lo, hi])
    cl = lo if x < lo else hi if x > hi else x
    chk('clamp', (x, lo, hi), cl, tol)
    chk('setminmax', (x, lo, hi), cl, tol)
    chk('setmax', (x, hi), min(x, hi), tol)
    chk('setmin', (x, lo), max(x, lo), tol)
    chk('setmaxvec', (u, hi), [min(a, hi) for a in u], tol)
    chk('setminmaxvec', (u, lo, hi), [max(lo, min(a, hi)) for a in u], tol)
    il, ih = sorted((rng.randint(-50, 50), rng.randint(-50, 50)))
    chk('intsetminmax', (x, il, ih), max(il, min(ih, round(x))), tol)
    chk('intsetminmaxvec', (u, il, ih), [max(il, min(ih, round(a))) for a in u], tol)
    chk('isinrange', (x, hi, lo), lo < x < hi)
    chk('sign', (x,), (x > 0) - (x < 0), tol)
    f = num()
    a, b = num(), num()
    chk('lerp', (a, b, f), a + (b - a) * f, 1e-9)
    chk('invlerp', (a, b, f), (f - a) / (b - a) if a != b else 1, tol and 1e-7)
    if a == b or abs(b - a) > 1:
        chk('smoothstep', (a, b, f), ss(a, b, f, lambda t: 3 * t**2 - 2 * t**3), tol and 1e-6)
        chk('smootherstep', (a, b, f), ss(a, b, f, lambda t: 6 * t**5 - 15 * t**4 + 10 * t**3), tol and 1e-6)
        chk('smootheststep', (a, b, f), ss(a, b, f, lambda t: -20 * t**7 + 70 * t**6 - 84 * t**5 + 35 * t**4), tol and 1e-5)
        g = Fr(rng.randint(0, 20), 20)
        for nm, poly in (('smoothsteplerp', lambda t: 3 * t**2 - 2 * t**3), ('smoothersteplerp', lambda t: 6 * t**5 - 15 * t**4 + 10 * t**3),
                         ('smootheststeplerp', lambda t: -20 * t**7 + 70 * t**6 - 84 * t**5 + 35 * t**4)):
            chk(nm, (a, b, float(g)), a + (b - a) * (poly(g) if a != b else 1), 1e-6)
    chk('delta', ([a, b],), b - a, tol)
    chk('range2baseanddelta', ([a, b],), (a, b - a), tol)
    chk('mirror', (a, b), (a - b, a + b), tol)
    chk('mirrorx', ([a, b], f), ([a - f, b], [a + f, b]), tol)
    chk('mirrory', ([a, b], f), ([a, b - f], [a, b + f]), tol)
    chk('mirrorvec', (u, v), [[p - q for p, q in zip(u, v)], [p + q for p, q in zip(u, v)]], tol)
    chk('mirror1stquad', (a, b, [f, s]), [[a - f, b + s], [a + f, b + s], [a - f, b - s], [a + f, b - s]], tol)
    chk('swapxy', ([a, b],), [b, a], tol)
    xi = [rng.randint(-200, 200) for _ in range(4)]
    chk('centerpoint', tuple(xi), ((xi[0] + xi[2]) // 2, (xi[1] + xi[3]) // 2), 0)
    p, q, r = V(3), V(3), V(3)
    cr = lambda p, q: [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    chk('crossprod3d', (p, q), cr(p, q), tol and 1e-8)
    d1, d2 = [y - x for x, y in zip(p, q)], [y - x for x, y in zip(p, r)]
    chk('getnormvec', (p, q, r), cr(d1, d2), tol and 1e-8)
    if exact:
        i3 = [[Fr(rng.randint(-3, 3)) for _ in range(3)] for _ in range(2)]
        chk('isorthogonal', tuple(i3), sum(x * y for x, y in zip(*i3)) == 0)
        chk('isorthogonal', (p, cr(p, q)), True)
        chk('vectiszero', (i3[0],), i3[0] == [0, 0, 0])
    bm = [rng.randrange(256) for _ in range(5)]
    chk('bitmaskvect', (bm, bm[0]), [t & bm[0] for t in bm])
    tet = rng.randint(0, 3)
    chk('tetration', (2, tet), [1, 2, 4, 16][tet])
    chk('getdomainbounds', ([p[:2], q[:2], r[:2]],), (min(p[0], q[0], r[0]), max(p[0], q[0], r[0]), min(p[1], q[1], r[1]), max(p[1], q[1], r[1])), 0)
    chk('det3D', (p, q, r), sum(x * y for x, y in zip(p, cr(q, r))), tol and 1e-6)
    ang = rng.uniform(-720, 720)
    sn, cs = math.sin(math.radians(ang)), math.cos(math.radians(ang))
    chk('computerotvec', (ang,), (sn, cs))
    chk('rotvec2D', ([a, b], (sn, cs)), [float(a) * cs - float(b) * sn, float(a) * sn + float(b) * cs], 1e-8)
    chk('polar2rectcoord2D', ([a, ang],), [float(a) * math.cos(ang), float(a) * math.sin(ang)], 1e-8)
    chk('pivotlist', ([u, v, u],), [list(t) for t in zip(u, v, u)], tol)
    chk('addvectlist', ([u, v], [v, v]), [[x + y for x, y in zip(u, v)], [x + y for x, y in zip(v, v)]], tol)
    chk('addvectinlist', ([u, v, u],), [x + y + z for x, y, z in zip(u, v, u)], tol)
    chk('addvectpairlist', ([u, v],), [x + y for x, y in zip(u, v)], tol)
    chk('addvecttripletlist', ([u, v, v],), [x + y + z for x, y, z in zip(u, v, v)], tol)
    iu, iv = [rng.randint(0, 255) for _ in range(n)], [rng.randint(0, 255) for _ in range(n)]
    mk = rng.randint(0, 255)
    chk('xorvect', (iu, iv), [x ^ y for x, y in zip(iu, iv)], 0)
    chk('andvect', (iu, iv), [x & y for x, y in zip(iu, iv)], 0)
    chk('orvect', (iu, iv), [x | y for x, y in zip(iu, iv)], 0)
    chk('bitmaskvect', (iu, mk), [x & mk for x in iu], 0)
    chk('enumbits', (mk,), [mk >> k & 1 for k in range(7, -1, -1)], 0)
    chk('vectiszero', ([0] * n,), True)
    chk('vectiszero', (u,), all(x == 0 for x in u))
    chk('adddimz', ([[a, b], [f, s]], x), [[a, b, x], [f, s, x]], tol)
    chk('initmatrix', (n, 3, mk), [[mk] * n for _ in range(3)], 0)
    chk('ravel2D', ([u, v],), u + v, tol)
    pts = [[num(), num()] for _ in range(rng.randint(3, 8))]
    X, Y = [t[0] for t in pts], [t[1] for t in pts]
    chk('getdomainbounds', (pts,), (min(X), max(X), min(Y), max(Y)), tol)
    chk('getcomplexdomainbounds', ([complex(float(t[0]), float(t[1])) for t in pts],), (float(min(X)), float(max(X)), float(min(Y)), float(max(Y))))
    XF, YF = [Fr(t) for t in X], [Fr(t) for t in Y]
    N = len(pts)
    den = N * sum(t * t for t in XF) - sum(XF)**2
    deny = N * sum(t * t for t in YF) - sum(YF)**2
    if den > 1:
        m = (N * sum(p * q for p, q in zip(XF, YF)) - sum(XF) * sum(YF)) / den
        chk('LSMslope', (pts,), m, 1e-6)
        chk('LSMYint', (pts,), sum(YF) / N - m * sum(XF) / N, 1e-5)
        if deny > 1:
            r = (N * sum(p * q for p, q in zip(XF, YF)) - sum(XF) * sum(YF)) / math.sqrt(den * deny)
            chk('PearsonsR', (pts,), r, 1e-6)
            chk('Rsquare', (pts,), r**2, 1e-6)
            if N > 2 and abs(r) < .999:
                chk('TTest', (pts,), r * math.sqrt((N - 2) / (1 - r * r)), 1e-4)
    if X[0] != X[1] and abs(X[0] - X[1]) > 1e-3:
        chk('slope', (pts[0], pts[1]), (Fr(Y[1]) - Fr(Y[0])) / (Fr(X[1]) - Fr(X[0])), 1e-6)
    gu, gv = [float(t) for t in u], [float(t) for t in v]
    if any(gu) and any(gv):
        nu, nv = math.sqrt(sum(t * t for t in gu)), math.sqrt(sum(t * t for t in gv))
        chk('cosaffin', (u, v), sum(p * q for p, q in zip(gu, gv)) / (nu * nv), 1e-7)
    if abs(float(mu)) > 1e-3:
        chk('coefvar', (u,), math.sqrt(sum((t - mu)**2 for t in ex) / n) / float(mu), 1e-5)
    th, ph = rng.uniform(-3, 3), rng.uniform(-3, 3)
    chk('spherical2rectcoord3D', ([a, th, ph],), [float(a) * math.sin(ph) * math.cos(th), float(a) * math.sin(ph) * math.sin(th), float(a) * math.cos(ph)], 1e-8)
    chk('cylindrical2rectcoord3D', ([a, th, b],), [float(a) * math.cos(th), float(a) * math.sin(th), float(b)], 1e-8)
    if p[0]:
        mg = math.sqrt(sum(float(t)**2 for t in p))
        chk('rect2sphericalcoord3D', (p,), [mg, math.atan(p[1] / p[0]), math.acos(float(p[2]) / mg)], 1e-7)
        chk('rect2polarcoord2D', (p[:2],), [math.hypot(float(p[0]), float(p[1])), math.atan(p[1] / p[0])], 1e-8)
    cos = [rng.uniform(-1, 1) for _ in range(3)]
    chk('diracos', (cos,), [math.acos(t) for t in cos], 1e-9)
    chk('dirdeg', (cos,), [math.degrees(t) for t in cos], 1e-9)
    tx = rng.randint(1, 3)
    chk('tetration', (tx, 1), tx, 0)
    chk('tetration', (tx, 2), tx**tx, 0)
    chk('tetration', (tx, 3), tx**tx**tx, 0) if tx < 3 else None
    t01 = rng.random()
    chk('invsmoothstep', (3 * t01**2 - 2 * t01**3,), t01, 1e-5)
    vs = list({(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(rng.randint(1, 5))})
    table = [[i, j, math.hypot(v1[0] - v2[0], v1[1] - v2[1])] for i, v1 in enumerate(vs) for j, v2 in enumerate(vs) if i != j]
    chk('distancetable', (vs,), table, 1e-9)
    ds = [[0, 1, rng.randint(0, 3)] for _ in range(rng.randint(1, 8))]
    got = must(call(M.countdist, ds), 'countdist', dict(distlist=ds))
    if got != {t: sum(1 for e in ds if e[2] == t) for t in {e[2] for e in ds}}:
        raise Violation(f'countdist({ds}) = {got}', dict(function='countdist', args=[ds]))
    q2 = [rng.randint(-9, 9), rng.choice((-9, -5, -1, 1, 2, 7))]
    an = math.atan2(q2[0], -q2[1]) % (2 * math.pi)     # clockwise from straight up
    chk('polarcoordangle2D', (q2,), an, 1e-7)
    chk('rect2polarcoord2Dwithcenter', ([3, 4], [3 + q2[0], 4 + q2[1]]), [math.hypot(*q2), an], 1e-7)
    chk('tetration', (tx, 0), 1, 0)
    z = [complex(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(1 << rng.randint(0, 4))]
    y = list(z)
    must(call(M.fft, y), 'fft', dict(v=z))
    import cmath
    e = [sum(z[t] * cmath.exp(-2j * math.pi * k * t / len(z)) for t in range(len(z))) for k in range(len(z))]
    if not same(y, e, 1e-7):
        raise Violation(f'fft({z}) = {y}', dict(v=z))
    must(call(M.ifft, y), 'ifft', dict(v=e))
    if not same([t / len(z) for t in y], z, 1e-7):
        raise Violation('ifft(fft(v))/n differs from v', dict(v=z))
    px, py = rng.randint(2, 6), rng.randint(2, 6)
    if max(X) > min(X) and max(Y) > min(Y) and exact:
        H = [[0] * px for _ in range(py)]
        bx, by = (max(X) - min(X)) / (px - 1), (max(Y) - min(Y)) / (py - 1)
        for t in pts:
            H[int((t[1] - min(Y)) / by)][int((t[0] - min(X)) / bx)] += 1
        chk('histogram2D', (pts, px, py), H, 0)


def b_math(X):
    while X.more() and X.cases < X.n(3000, 30000):
        one(X.rng, X.cases % 2 == 0)
        X.case(X.cases, 'random vectors and scalars of all helpers')


def replay(i):
    rng = random.Random(str(i))
    for k in range(60):
        one(rng, k % 2 == 0)


_n = lambda **k: bmp_inputs(None, **k)
PROOFS = [Proof(f'{n}, vectors of any length', [f'mathlib.{n}'], p_comp(n, o), inputs=_n(), replay=replay) for n, o in
          (('addvect', lambda c, a, b: a + b), ('subvect', lambda c, a, b: a - b), ('mulvect', lambda c, a, b: P(c, a, b)), ('divvect', None))]
PROOFS += [Proof('scalar product and limits of vectors of any length', ['mathlib.scalarmulvect', 'mathlib.setmaxvec', 'mathlib.setminmaxvec'], p_scalar, inputs=_n(), replay=replay),
           Proof('inner product and mean, any length', ['mathlib.dotprod', 'mathlib.mean', 'mathlib.isorthogonal'], p_dot, inputs=_n(), replay=replay),
           Proof('clamping and interpolation', ['mathlib.' + f for f in ('setmax', 'setmin', 'setminmax', 'clamp', 'lerp', 'invlerp', 'sign', 'isinrange')], p_scalars, inputs=_n(), replay=replay),
           Proof('integer helpers', ['mathlib.' + f for f in ('centerpoint', 'mirror', 'mirror1stquad', 'swapxy', 'delta', 'intsetminmax')], p_ints, inputs=_n(), replay=replay),
           Proof('cross product, determinant, normal', ['mathlib.crossprod3d', 'mathlib.det3D', 'mathlib.getnormvec'], p_3d, inputs=_n(), replay=replay)]
PROOFS += [Proof('vector sums, mirrors and shifts of lists of vectors', ['mathlib.' + f for f in ('scalardivvect', 'addvectpairlist', 'addvecttripletlist', 'trans', 'addvectlist', 'mirrorvec')], p_vectors2, inputs=_n(), replay=replay),
           Proof('variance, magnitude and distance, any length', ['mathlib.' + f for f in ('variance', 'vmag', 'dist')], p_stat, inputs=_n(), replay=replay),
           Proof('smooth steps and their interpolation', ['mathlib.' + f for f in ('smoothstep', 'smootherstep', 'smootheststep', 'smoothsteplerp', 'smoothersteplerp', 'smootheststeplerp')], p_smooth, inputs=_n(), replay=replay),
           Proof('points in the plane', ['mathlib.' + f for f in ('mirrorx', 'mirrory', 'range2baseanddelta', 'rotvec2D', 'adddimz', 'slope')], p_plane, inputs=_n(), replay=replay),
           Proof('standard deviation, any length', ['mathlib.StdDev', 'mathlib.variance'], p_std, inputs=_n(), replay=replay),
           Proof('directions, means and sums derived from the basic ones', ['mathlib.' + f for f in ('normvec', 'dircos', 'cosaffin', 'coefvar', 'addvectinlist', 'meanlist', 'dirdeg')], p_more, inputs=_n(), replay=replay),
           Proof('rounding, any length', ['mathlib.roundvect', 'mathlib.roundvectlist'], p_round, inputs=_n(), replay=replay),
           Proof('polar, cylindrical and spherical coordinates', ['mathlib.' + f for f in ('polar2rectcoord2D', 'cylindrical2rectcoord3D', 'spherical2rectcoord3D')], p_coords, inputs=_n(), replay=replay),
           Proof('bitwise vectors of bytes, any length', ['mathlib.' + f for f in ('xorvect', 'andvect', 'orvect')], p_bytes, inputs=_n(), replay=replay),
           Proof('regression and correlation, any number of points', ['mathlib.' + f for f in ('LSMYint', 'PearsonsR', 'Rsquare')], p_pearson, inputs=_n(), replay=replay),
           Proof('table turned, any number of points', ['mathlib.pivotlist'], p_lsm, inputs=_n(), replay=replay)]
BOUNDED = [Bounded('vector and number helpers, concrete', b_math, 'random vectors of length 1..7 of exact fractions and floats, about 70 helpers each', ['mathlib.*'], quick=12, thorough=90)]
