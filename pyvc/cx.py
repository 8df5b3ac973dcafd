"""Complex numbers of the verifier: a pair of real terms.

Sums, products, quotients, conjugates and parts are exact (as pairs of reals); the modulus is characterised by h >= 0 and h*h = re*re + im*im;
powers with a symbolic exponent and the functions of cmath are functions of their arguments about which nothing else is assumed.
"""
import cmath
import z3
from .terms import lift, unlift, is_sym, and_, ite
R = z3.RealSort()
NUM = (int, float, bool)


class Cx:
    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f'Cx({self.re}, {self.im})'


def r(v):
    v = lift(v)
    return z3.ToReal(v) if v.is_int() else v


def parts(v):
    if isinstance(v, Cx):
        return v.re, v.im
    if isinstance(v, complex):
        return v.real, v.imag
    return v, 0


def mk(re, im):
    return Cx(unlift(r(re)) if is_sym(re) else re, unlift(r(im)) if is_sym(im) else im)


def fun(ctx, name, *args):
    """a complex (or real) function of its arguments"""
    a = [z3.simplify(r(x)) for v in args for x in parts(v)]
    ctx.keep.append(a)
    return [z3.Function(f'{name}_{p}', *[R] * len(a), R)(*a) for p in ('re', 'im')]


def is_cx(v):
    return isinstance(v, (Cx, complex))


def nonzero(v):
    a, b = parts(v)
    return z3.Or(r(a) != 0, r(b) != 0)


def binop(ctx, op, a, b):
    (ar, ai), (br, bi) = parts(a), parts(b)
    B = ctx.binop
    ctx.floats_used = True
    if op in '+-':
        return mk(B(op, ar, br), B(op, ai, bi))
    if op == '*':
        return mk(B('-', B('*', ar, br), B('*', ai, bi)), B('+', B('*', ar, bi), B('*', ai, br)))
    if op == '/':
        if isinstance(b, NUM) or (is_sym(b)):
            return mk(B('/', ar, b), B('/', ai, b))
        ctx.no_exc(nonzero(b), 'ZeroDivisionError')
        q = Cx(*fun(ctx, 'cquotient', a, b))
        p = binop(ctx, '*', q, b)
        ctx.fact_once(('cdiv', q.re.get_id(), q.im.get_id()), z3.And(r(p.re) == r(ar), r(p.im) == r(ai)))
        return q
    if op == '**':
        if isinstance(b, int) and 0 <= b <= 8:
            t = mk(1.0, 0.0)
            for _ in range(b):
                t = binop(ctx, '*', t, a)
            return t
        ctx.no_exc(z3.Or(nonzero(a), z3.And(r(bi) == 0, r(br) >= 0)), 'ZeroDivisionError')
        p = Cx(*fun(ctx, 'cpower', a, b))
        ctx.fact_once(('cpow', p.re.get_id(), p.im.get_id()),
                      z3.And(z3.Implies(nonzero(a), nonzero(p)), z3.Implies(z3.And(r(br) == 0, r(bi) == 0), z3.And(p.re == 1, p.im == 0))))
        return p
    return None


def modulus(ctx, v):
    a, b = parts(v)
    h = fun(ctx, 'modulus', v)[0]
    ctx.fact_once(('cabs', h.get_id()), z3.And(h >= 0, r(ctx.mul(h, h)) == r(ctx.binop('+', ctx.binop('*', a, a), ctx.binop('*', b, b))),
                                               h >= r(a), h >= -r(a), h >= r(b), h >= -r(b)))
    return h


def equal(a, b):
    (ar, ai), (br, bi) = parts(a), parts(b)
    return and_(unlift(r(ar) == r(br)), unlift(r(ai) == r(bi)))


def merge(c, a, b):
    (ar, ai), (br, bi) = parts(a), parts(b)
    return Cx(ite(c, r(ar), r(br)), ite(c, r(ai), r(bi)))


def b_complex(ctx, re=0, im=0):
    if not any(is_sym(v) or isinstance(v, Cx) for v in (re, im)):
        return complex(re, im)
    if is_cx(re) or is_cx(im):
        return ctx.binop('+', re, ctx.binop('*', im, Cx(0, 1)))
    return mk(re, im)


def cfun(name, real):
    def h(ctx, v):
        if not isinstance(v, Cx) and not is_sym(v):
            return real(v)
        ctx.floats_used = True
        return Cx(*fun(ctx, 'c' + name, v))
    return h


def rfun(name, real):
    def h(ctx, v):
        if not isinstance(v, Cx) and not is_sym(v):
            return real(v)
        ctx.floats_used = True
        return fun(ctx, 'c' + name, v)[0]
    return h


BUILTINS = {complex: b_complex, cmath.phase: rfun('phase', cmath.phase)}
for _n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'sqrt'):
    BUILTINS[getattr(cmath, _n)] = cfun(_n, getattr(cmath, _n))
