"""C17: pie chart data gives every entry its share of the circle: contiguous angles in the order given, proportional to the values, adding up to 360 degrees."""
import random
from fractions import Fraction
from .common import *
from .contracts import *
from .c03 import real
with silent():
    from pythonbmp import charts as CH
PROPERTY = 'C17'
ASSUMPTIONS = ['floating point is treated as real arithmetic (the bounded check compares the floats with exact fractions, relative error 1e-9)',
               'entries are [value, colour] with a positive number as value; the list is not empty',
               'drawing the sectors (drawarc) is not part of the property: it samples the circle outline and fills between the points it meets']
V, COL, PRE, START = z3.Function('value', I, z3.RealSort()), z3.Function('colour', I, I), z3.Function('sum_before', I, z3.RealSort()), z3.Function('angle', I, z3.RealSort())


class Data:
    def __init__(self, ctx):
        self.ctx, self.n = ctx, z3.Int('n')
        ctx.fact(z3.And(self.n >= 1, PRE(0) == 0, START(0) == 0))
        self.list = ctx.mk('list', length=self.n, view=lambda j: ctx.mk('list', items=[self.value(j), COL(lift(j))]))
        self.list.indexer = self.index
        self.inlist = self.list.snapshot()

    def value(self, j):
        t = V(lift(j))
        self.ctx.fact_once(('v', t.get_id()), t > 0)
        self.ctx.keep.append(t)
        return t

    def upto(self, k):
        """unfold the sum of the values at k"""
        k = lift(k)
        self.ctx.keep.append(k)
        self.ctx.fact_once(('pre', k.get_id()), z3.And(PRE(k + 1) == PRE(k) + V(k)))

    def index(self, v):
        """list.index: the first place of an entry that is equal"""
        ctx, k = self.ctx, self.ctx.loops[-1].k
        ctx.prove(ctx.eq_val(v, self.list.view(k)), 'the entry looked for is in the list', 'pre')
        i = ctx.fresh('index')
        self.value(i)
        ctx.fact(z3.And(i >= 0, i <= lift(k), V(i) == V(lift(k)), COL(i) == COL(lift(k))))
        return i


def p_total(ctx):
    d = Data(ctx)
    ctx.specs.append(lambda L: Summing(d))
    t = ctx.call(CH.getdatalisttotal, [d.list])
    if z3.is_expr(t) and t.get_id() in ctx.ghost.get('sums', {}):
        prove_sum(ctx, t, d.n, lambda j: V(lift(j)), 'the total is the sum of the values')
    else:
        ctx.prove(real(t) == PRE(d.n), 'the total is the sum of the values')


class Summing(LoopSpec):
    """a loop that adds up: its accumulator holds the sum so far"""
    def __init__(self, d):
        self.d = d

    def inv(self, L, k):
        self.d.upto(k)
        return []


def c_total(ctx, dlist):
    """requires the data; ensures the sum of all values, positive     (proved below)"""
    d = ctx.ghost['data']
    if dlist is not d.list:
        return NotImplemented
    return ctx.ghost['total']


def p_data(ctx):
    d = ctx.ghost['data'] = Data(ctx)
    T = ctx.ghost['total'] = z3.Real('total')
    ctx.fact(z3.And(T == PRE(d.n), T > 0))
    ctx.ghost['congr'] = True
    share = lambda k: real(ctx.binop('/', d.value(k), T))

    def unfold(k):
        k = lift(k)
        ctx.keep.append(k)
        d.upto(k)
        p = share(k)
        # lemmas of real arithmetic, proved below: a share of the total, and the angles as shares of the sums
        ctx.fact_once(('ang', k.get_id()), z3.And(START(k + 1) == START(k) + p * 360, p > 0, p * 360 > 0))

    class Spec(LoopSpec):
        def inv(self, L, k):
            unfold(k)
            v = frame_with(ctx, 'sa', 'big')
            if v is None:
                return []
            big = lift(v['big'])
            d.value(big)
            j = z3.Int('some')
            d.value(j)
            return [real(v['sa']) == START(lift(k)), z3.And(big >= -1, big < lift(k)), z3.Implies(big >= 0, share(big) * 100 >= 50),
                    z3.Implies(z3.And(j >= 0, j < lift(k), share(j) * 100 >= 50), big >= 0)]

        def arr(self, L, a, k):
            if a is d.list or a.kind != 'list':
                return None
            return ArrSpec(view=entry, length=lift(k))

    def entry(j):
        unfold(j)
        j = lift(j)
        return ctx.mk('list', items=[START(j), START(j + 1), COL(j), d.value(j), share(j) * 100])
    ctx.specs.append(lambda L: Spec())
    r = ctx.call(CH.genpiechartdata, [d.list])
    ctx.prove(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr), 'the entries and the large one')
    out, big = r
    ctx.prove(lift(out.length) == d.n, 'one sector for every entry')
    j = z3.Int('some')
    ctx.push()
    try:
        ctx.solver.add(j >= 0, j < d.n)
        e = out.view(j)
        unfold(j)
        ctx.prove(isinstance(e, Arr) and e.items is not None and len(e.items) == 5, 'a sector has five fields')
        sa, ea, c, v, p = e.items
        ctx.prove(z3.And(real(sa) == START(j), real(ea) == START(j + 1)), 'a sector begins where the one before ends')
        ctx.prove(real(ea) - real(sa) == share(j) * 360, 'its angle is its share of 360 degrees')
        ctx.prove(z3.And(lift(c) == COL(j), real(v) == V(j)), 'it holds the colour and the value of its entry')
        ctx.prove(real(p) == share(j) * 100, 'its percentage is its share of 100')
        ctx.prove(z3.Implies(share(j) * 100 >= 50, lift(big) >= 0), 'an entry of at least half is reported')
    finally:
        ctx.pop()
    d.value(big)
    ctx.prove(z3.And(lift(big) >= -1, lift(big) < d.n, z3.Implies(lift(big) >= 0, share(big) * 100 >= 50)), 'the entry reported holds at least half')
    same = ctx.fresh('same')
    d.value(same)
    ctx.prove(z3.And(lift(d.list.length) == d.n, real(d.list.view(same).items[0]) == V(same)), 'the data is not changed')


def p_circle(ctx):
    """induction: angle(k) * total == 360 * sum of the values before k; the base is 0 == 0"""
    a, s, v, T, p = z3.Reals('a s v T p')
    for what, pre, goal in (('step: the angles are proportional to the sums', [a * T == 360 * s, p * T == v, T > 0], (a + p * 360) * T == 360 * (s + v)),
                            ('the last angle is the full circle', [a * T == 360 * T, T > 0], a == 360),
                            ('a share is positive', [p * T == v, T > 0, v > 0], p > 0),
                            ('shares are proportional to the values', [p * T == v, T > 0], p == v / T)):
        S = z3.SolverFor('QF_NRA')
        S.add(*pre, z3.Not(goal))
        ctx.prove(S.check() == z3.unsat, what)


def data_of(g):
    n = g.choice((1, 1, 2, 3, 5, 8, 20))
    k = g.random()
    def val():
        if k < .4:
            return g.randint(1, 50)
        if k < .6:
            return g.choice((1, 2))
        if k < .8:
            return g.random() * 10 ** g.randint(-3, 6) + 1e-9
        return g.randint(1, 10 ** 9)
    v = [val() for _ in range(n)]
    if g.random() < .3:     # one entry of exactly (or just about) half of the total
        v = [g.randint(1, 40) for _ in range(n)]
        v.insert(g.randint(0, n), sum(v) + g.choice((0, 0, 0, 1, -1) if sum(v) > 1 else (0,)))
    return [[e, g.randrange(1 << 24)] for e in v]


def check(d):
    inputs = dict(data=[list(e) for e in d])
    d0 = [list(e) for e in d]
    t = must(call(CH.getdatalisttotal, d), 'getdatalisttotal', inputs)
    T = sum(Fraction(e[0]) for e in d0)
    near = lambda u, v: abs(Fraction(u) - v) <= Fraction(1, 10 ** 9) * max(1, abs(v))
    if not near(t, T):
        raise Violation(f'getdatalisttotal = {t}, the values add up to {float(T)}', inputs)
    out, big = must(call(CH.genpiechartdata, d), 'genpiechartdata', inputs)
    if d != d0:
        raise Violation('genpiechartdata changed its data', inputs)
    if len(out) != len(d):
        raise Violation(f'genpiechartdata: {len(out)} sectors for {len(d)} entries', inputs)
    a = Fraction(0)
    for i, (e, (v, c)) in enumerate(zip(out, d0)):
        b = a + Fraction(v) * 360 / T
        if len(e) != 5 or not near(e[0], a) or not near(e[1], b) or e[2] != c or e[3] != v or not near(e[4], Fraction(v) * 100 / T):
            raise Violation(f'genpiechartdata: sector {i} is {e}, expected {[float(a), float(b), c, v, float(Fraction(v) * 100 / T)]}', inputs)
        if i and e[0] != out[i - 1][1]:
            raise Violation(f'genpiechartdata: sector {i} does not begin where the one before ends', inputs)
        a = b
    large = [i for i, e in enumerate(d0) if Fraction(e[0]) * 2 / T >= 1 + Fraction(1, 10 ** 9)]
    if all(isinstance(e[0], int) for e in d0) and T < 2 ** 50:
        large = [i for i, e in enumerate(d0) if 2 * e[0] >= T]
    nearly = [i for i, e in enumerate(d0) if Fraction(e[0]) * 2 / T >= 1 - Fraction(1, 10 ** 9)]
    if large and big not in large or big != -1 and big not in nearly:
        raise Violation(f'genpiechartdata reports {big} as the large entry, entries of at least half: {large}', inputs)


def b_charts(X):
    g = X.rng
    while X.more():
        d = data_of(g)
        check(d)
        X.case((len(d), g.random()), str(d[:2]))


def replay(i):
    g = random.Random(7)
    for _ in range(3000):
        try:
            check(data_of(g))
        except Violation as e:
            i.clear()
            i.update(e.inputs)
            return str(e)
    return None


PROOFS = [Proof('total', ['charts.getdatalisttotal'], p_total, replay=replay), Proof('sectors', ['charts.genpiechartdata'], p_data, registry={('pythonbmp.charts', 'getdatalisttotal'): c_total}, replay=replay),
          Proof('full circle', [], p_circle)]
BOUNDED = [Bounded('charts, concrete', b_charts, 'lists of up to 20 entries, integer and float values, against exact fractions', ['charts.getdatalisttotal', 'charts.genpiechartdata'], quick=5, thorough=60)]
