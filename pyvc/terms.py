"""Symbolic terms: polynomial normal form, product abstraction, small helpers over z3."""
import z3

I = z3.IntSort()


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_symint(v):
    return isinstance(v, z3.ArithRef) and v.is_int()


def is_symreal(v):
    return isinstance(v, z3.ArithRef) and v.is_real()


def is_symbool(v):
    return isinstance(v, z3.BoolRef)


def lift(v):
    """python value or term -> z3 arith term"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        n, d = v.as_integer_ratio()
        return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
    if is_symbool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def liftb(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    if is_symbool(v):
        return v
    if is_sym(v):
        return v != 0
    return z3.BoolVal(bool(v))


def unlift(t):
    """z3 numeral -> python int, otherwise the simplified term"""
    if not is_sym(t):
        return t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def ite(c, a, b):
    """polymorphic if-then-else: python values when c is a python bool"""
    if not is_sym(c):
        return a if c else b
    s = z3.simplify(c)
    if z3.is_true(s):
        return a
    if z3.is_false(s):
        return b
    if is_symbool(a) or is_symbool(b):
        return z3.If(c, liftb(a), liftb(b))
    a, b = lift(a), lift(b)
    if a.is_real() != b.is_real():
        a = z3.ToReal(a) if a.is_int() else a
        b = z3.ToReal(b) if b.is_int() else b
    return z3.If(c, a, b)


def and_(*cs):
    out = []
    for c in cs:
        if is_sym(c):
            out.append(c)
        elif not c:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*cs):
    out = []
    for c in cs:
        if is_sym(c):
            out.append(c)
        elif c:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def not_(c):
    return z3.Not(c) if is_sym(c) else not c


def implies(a, b):
    return or_(not_(a), b)


def linform(t):
    """term -> (dict {atom_id: (atom, coeff)}, const); products are expanded by z3's som form.
    Non-linear monomials are returned as atoms."""
    s = z3.simplify(lift(t), som=True, flat=True)
    d, c = {}, 0

    def mono(m, k):
        nonlocal c
        if z3.is_int_value(m):
            c += k * m.as_long()
            return
        if z3.is_mul(m) and m.num_args() == 2 and z3.is_int_value(m.arg(0)):
            mono(m.arg(1), k * m.arg(0).as_long())
            return
        if z3.is_app_of(m, z3.Z3_OP_UMINUS):
            mono(m.arg(0), -k)
            return
        if z3.is_add(m):
            for a in m.children():
                mono(a, k)
            return
        key = m.get_id()
        if key in d:
            d[key] = (m, d[key][1] + k)
        else:
            d[key] = (m, k)
    mono(s, 1)
    return {k: v for k, v in d.items() if v[1] != 0}, c


def rlinform(t):
    """real term -> (dict {atom_id: (atom, Fraction)}, Fraction)"""
    from fractions import Fraction
    d, c = {}, Fraction(0)

    def mono(m, k):
        nonlocal c
        if z3.is_rational_value(m):
            c += k * m.as_fraction()
        elif z3.is_mul(m) and m.num_args() == 2 and z3.is_rational_value(m.arg(0)):
            mono(m.arg(1), k * m.arg(0).as_fraction())
        elif z3.is_app_of(m, z3.Z3_OP_UMINUS):
            mono(m.arg(0), -k)
        elif z3.is_add(m):
            for a in m.children():
                mono(a, k)
        elif z3.is_sub(m):
            for i, a in enumerate(m.children()):
                mono(a, k if i == 0 else -k)
        else:
            key = m.get_id()
            d[key] = (m, d[key][1] + k) if key in d else (m, Fraction(k))
    mono(z3.simplify(t, som=True, flat=True), Fraction(1))
    return {k: v for k, v in d.items() if v[1] != 0}, c


def fromlin(d, c):
    args = []
    for atom, k in d.values():
        if k == 1:
            args.append(atom)
        elif k != 0:
            args.append(z3.IntVal(k) * atom)
    if c != 0 or not args:
        args.append(z3.IntVal(c))
    return args[0] if len(args) == 1 else z3.Sum(args)
