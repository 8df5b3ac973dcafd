"""pyvc: verification-condition generator for (a subset of) Python.

The functions are taken from /repo's current source on every run: each live function object of the
imported module is mapped to its AST through co_filename/co_firstlineno; decorators and closures are
executed symbolically as they stand.  Paths are explored by deterministic re-execution with a decision
prefix.  Loops whose trip count is not concrete are cut by an invariant (havoc + assume + check).
Calls to functions under a modular contract use the contract; every other repository function is inlined.
Integers are mathematical (as Python's are); array('B') stores carry a 0..255 obligation; every index,
slice-size and exception condition is an obligation.  What is dropped: printing, wall-clock time,
docstrings/annotations; floats are treated as reals (listed as an assumption where it matters).
"""
import ast
import builtins
import math
import os
import subprocess
import tempfile
import time
import types
from array import array as _array
import z3
from .terms import *
from . import cx

REM = z3.Function('rem', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path needs no further execution"""


class NeedFork(Exception):
    pass


class StopVerify(Exception):
    pass


class Restart(Exception):
    """loop information changed: restart the exploration of the whole function"""


class ReturnEx(Exception):
    def __init__(self, v, env):
        self.v = v
        self.env = env


class BreakEx(Exception):
    def __init__(self, tok):
        self.tok = tok


class ContinueEx(Exception):
    def __init__(self, tok):
        self.tok = tok


class PyExc(Exception):
    """an exception raised by the program under verification"""
    def __init__(self, tname, msg=''):
        self.tname = tname
        self.msg = msg


class Opaque:
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f'<opaque {self.tag}>'


NONE = None


class Arr:
    """list / array('B') / bytes with functional contents; items is a python list when fully concrete length"""
    _n = 0

    def __init__(self, kind, length=0, view=None, items=None, ctx=None):
        self.kind = kind
        self.items = items
        self.length = len(items) if items is not None else length
        self._view = view
        self.bmp = None
        self.ver = 0
        self.memo = {}
        self.ctx = ctx
        self.oid = ctx.new_oid(self) if ctx is not None else -1
        self.frozen = False
        self.over = None        # dict of stores at concrete positions, merged into _view (private until a snapshot is taken)
        self.over_view = None
        self.shared = False
        self.member = None      # v -> is v an element (for lists whose contents are only known as a set)
        self.counts = False     # a dictionary from non-negative integers to integers other than 0: view(k) == 0 where there is no key k

    def put_concrete(self, pairs):
        """stores at concrete positions of a symbolic-length array"""
        self.touch()
        if self.over is not None and self._view is self.over_view:
            if self.shared:
                over, base = dict(self.over[0]), self.over[1]
            else:
                self.over[0].update(pairs)
                return
        else:
            over, base = {}, self._view
            memo, ctx = {}, self.ctx
            base = (lambda b, arr: lambda j: memo_view(ctx, arr, memo, b, j))(base, self)
        over.update(pairs)
        ctx = self.ctx

        def view(j):
            if not is_sym(j):
                return over[j] if j in over else base(j)
            lo, hi = min(over), max(over)
            if ctx is not None and ctx.valid(z3.Or(j < lo, j > hi)):
                return base(j)
            r = base(j)
            for k in sorted(over, reverse=True):
                c = unlift(j == k)
                if not is_sym(c):
                    if c:
                        return over[k]
                    continue
                r = merge_val(c, over[k], r)
            return r
        self.items = None
        self._view = view
        self.over, self.over_view, self.shared = (over, base), view, False

    def touch(self):
        if self.frozen:
            raise Unsupported('mutation of a frozen/module-level object')
        if self.ctx is not None and self.oid <= self.ctx.pure_below:
            raise NeedFork()
        self.ver += 1
        self.memo = {}
        self.member = None

    def view(self, j):
        if self.items is not None:
            return items_view(self.items, j)
        return memo_view(self.ctx, self, self.memo, self._view, j)

    def snapshot(self):
        if self.items is not None:
            it = list(self.items)
            return lambda j: items_view(it, j)
        self.shared = True
        v, memo, ctx = self._view, {}, self.ctx
        return lambda j: memo_view(ctx, self, memo, v, j)

    def set_view(self, view, length=None):
        self.touch()
        self.items = None
        self._view = view
        if length is not None:
            self.length = length


def memo_view(ctx, arr, memo, view, j):
    """values computed at solver scope 0 are valid everywhere; inside a scope they are kept in that scope only"""
    key = j.get_id() if is_sym(j) else ('c', j)
    if key in memo:
        return memo[key][0]
    if ctx is None or ctx.depth == 0:
        memo[key] = (view(j), j)
        return memo[key][0]
    k2 = (id(memo), key)
    for d in reversed(ctx.scopes):
        if k2 in d:
            return d[k2][0]
    r = view(j)
    ctx.scopes[-1][k2] = (r, j, memo)
    return r


def items_view(items, j):
    if not is_sym(j):
        return items[j]
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = merge_val(j == i, items[i], r)
    return r


def same_val(a, b):
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    try:
        return type(a) == type(b) and a == b and not isinstance(a, (Arr, Closure, GenObj))
    except Exception:
        return False


def merge_val(c, a, b):
    if same_val(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.items is not None and b.items is not None \
            and len(a.items) == len(b.items) and a.kind == b.kind:
        return Arr(a.kind, items=[merge_val(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Arr) and isinstance(b, Arr) and a.kind == b.kind == 'B' and a.bmp is None and b.bmp is None and (a.items is None or b.items is None):
        va, vb = a.snapshot(), b.snapshot()
        if a.items == [] or b.items == []:      # an empty one has no element to speak of
            return Arr(a.kind, length=merge_val(c, a.length, b.length), view=va if b.items == [] else vb)
        return Arr(a.kind, length=merge_val(c, a.length, b.length), view=lambda j: merge_val(c, va(j), vb(j)))
    num = (int, float, bool)
    if (isinstance(a, num) or is_sym(a)) and (isinstance(b, num) or is_sym(b)):
        return ite(c, a, b)
    if cx.is_cx(a) and cx.is_cx(b):
        return cx.merge(c, a, b)
    raise NeedFork()


class Closure:
    def __init__(self, node, env, gl, name, defaults, kwdefaults):
        self.node, self.env, self.gl, self.name = node, env, gl, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cells = None

    @property
    def __name__(self):
        return self.name


class GenObj:
    def __init__(self, fn, run, name=''):
        self.run = run            # run(callback)
        self.name = name
        self.used = False
        self.spec = None


class RangeObj:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class UFunc:
    """a symbolic (uninterpreted) function value: pure function of its arguments"""
    def __init__(self, name, impl):
        self.__name__ = name
        self.impl = impl


class Env:
    __slots__ = ('vars', 'parent', 'name', 'gl', 'nonlocals')

    def __init__(self, parent, name, gl=None):
        self.vars = {}
        self.parent = parent
        self.name = name
        self.gl = gl if gl is not None else (parent.gl if parent is not None else {})
        self.nonlocals = set()

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e, e.vars[n]
            e = e.parent
        return None, None


# ------------------------------------------------------------------ source extraction
_ast_cache = {}


def _module_index(fname):
    if fname not in _ast_cache:
        with open(fname, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                nm = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                idx.setdefault((line, nm), []).append(n)
        _ast_cache[fname] = idx
    return _ast_cache[fname]


def func_ast(f):
    co = f.__code__
    idx = _module_index(co.co_filename)
    c = idx.get((co.co_firstlineno, co.co_name), [])
    if len(c) > 1:
        pos = [p for p in co.co_positions() if p[2] is not None]
        ps = [(l, col) for l, _, col, _ in pos]
        c2 = []
        for n in c:
            b = n.body if isinstance(n, ast.Lambda) else n
            lo, hi = (b.lineno, b.col_offset), (b.end_lineno, b.end_col_offset)
            if any(lo <= p <= hi for p in ps[1:] or ps):
                c2.append(n)
        c = c2 if len(c2) >= 1 else c
        c = [n for n in c if n.args and len(n.args.args) == co.co_argcount][:1]
    if not c:
        raise Unsupported(f'no source for {f!r}')
    return c[0]


_isgen = {}


def is_generator_node(node):
    k = id(node)
    if k not in _isgen:
        found = False
        stack = list(node.body) if isinstance(node, ast.FunctionDef) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _isgen[k] = (found, node)
    return _isgen[k][0]


class DecLog:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []
        self.conds = []

    @property
    def replaying(self):
        return self.pos < len(self.prefix)


class LoopInfo:
    def __init__(self):
        self.locals = {}         # (frame index, name) -> 'fresh' | ('ind', d)
        self.noind = set()
        self.cplx = set()        # ... or a complex number
        self.real = set()        # locals that start as an int and become a real
        self.objs = {}           # oid -> 'same' | ('ind', d) | 'free'  (how the length evolves)
        self.new = set()
        self.seeded = False


class ArrSpec:
    """exact: view(j) is the element; otherwise rel(j, v) holds of the element v at j"""
    def __init__(self, view=None, rel=None, length=None, below=0, member=None, prefix=0):
        # member: v -> is v an element
        self.member = member
        # prefix: so many leading elements are of another kind than the rest (view is asked for them with concrete positions)
        self.prefix = prefix
        # below: the elements before this (concrete) position are exactly the ones at loop entry
        self.view, self.rel, self.length, self.below = view, rel, length, below


class Loop:
    """what a loop specification gets to look at"""
    def __init__(self, ctx, kind, node):
        self.ctx = ctx
        self.kind = kind
        self.node = node
        self.func = tuple(ctx.func_stack)
        self.ordinal = ctx.loop_no
        self.depth = len(ctx.loops)
        self.n = None
        self.k = None
        self._entry = {}

    def entry(self, arr):
        """contents of arr when the loop was entered (a view)"""
        return self._entry[arr.oid][0]

    def entry_len(self, arr):
        return self._entry[arr.oid][1]


class LoopSpec:
    """default: nothing known about modified arrays except their length"""
    unroll = None

    def arr(self, L, a, k):
        return None

    def inv(self, L, k):
        return []


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.by = {}
        self.solver_s = 0.0
        self.paths = 0
        self.failed = []     # dicts
        self.covers = 0
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.names = {}


class Exec:
    """one symbolic execution path"""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.reg = explorer.registry
        self.logs = [DecLog(prefix)]
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.timeout_ms)
        self.depth = 0
        self.scopes = []
        self.pure_below = -2
        self.abbrev_on = True
        self.facts = []
        self.fact_keys = {}
        self.counters = {}
        self.frames = []
        self.oids = 0
        self.objs = {}
        self.loop_no = 0
        self.loops = []
        self.toks = {}
        self.new_dicts = set()
        self.quiet = 0
        self.trydepth = 0
        self.pinned = []
        self.specs = []
        self.func_stack = []
        self.monos = {}       # tuple(ids) -> const
        self.mono_of = {}     # const id -> tuple(atoms)
        self.strides = {}     # atom id -> (atom, [multipliers])
        self.abbrev = {}      # canonical sexpr -> term
        self.rc_memo = {}
        self.keep = []
        self.glob_cache = {}
        self.nprove = 0
        self.genspecs = {}
        self.io = None
        self.ghost = {}
        self.floats_used = False
        self.merge_depth = 0
        self.calldepth = 0

    # ---------- basic
    def new_oid(self, o):
        self.oids += 1
        self.objs[self.oids] = o
        return self.oids

    def fresh_name(self, hint):
        n = self.counters.get(hint, 0)
        self.counters[hint] = n + 1
        return f'{hint}!{n}'

    def fresh(self, hint='v'):
        return z3.Int(self.fresh_name(hint))

    def fresh_real(self, hint='r'):
        return z3.Real(self.fresh_name(hint))

    def fresh_bool(self, hint='b'):
        return z3.Bool(self.fresh_name(hint))

    def fresh_fun(self, hint='f'):
        return z3.Function(self.fresh_name(hint), I, I)

    def mk(self, kind, items=None, length=0, view=None):
        return Arr(kind, length=length, view=view, items=items, ctx=self)

    def fact(self, f):
        """globally valid (definitional) fact"""
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        if self.depth > 0:
            self.facts.append((f, self.depth))
        self.solver.add(f)

    def fact_once(self, key, f):
        if key in self.fact_keys:
            return
        self.fact_keys[key] = True
        self.fact(f() if callable(f) else f)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.solver.add(c)

    def push(self):
        self.solver.push()
        self.depth += 1
        self.scopes.append({})

    def pop(self):
        self.solver.pop()
        self.depth -= 1
        self.scopes.pop()
        keep = []
        for f, d in self.facts:
            if d > self.depth:
                self.solver.add(f)
                if self.depth > 0:
                    keep.append((f, self.depth))
            else:
                keep.append((f, d))
        self.facts = keep

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.x.stats.solver_s += time.time() - t
        return r

    def feasible(self, c):
        self.solver.set('timeout', self.x.feas_ms)
        r = self.check(c)
        self.solver.set('timeout', self.x.timeout_ms)
        return r != z3.unsat

    def valid(self, c):
        """quick entailment test (used for decisions that only pick a representation)"""
        if not is_sym(c):
            return bool(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self.solver.set('timeout', self.x.feas_ms)
        r = self.check(z3.Not(c))
        self.solver.set('timeout', self.x.timeout_ms)
        return r == z3.unsat

    def decide(self, c):
        if not is_sym(c):
            return bool(c)
        c = liftb(c)
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        log = self.logs[-1]
        if log.replaying:
            b = log.prefix[log.pos]
        else:
            t = self.feasible(c)
            if not t:
                b = 'F'
            else:
                f = self.feasible(z3.Not(c))
                if not f:
                    b = 'T'
                else:
                    b = True
                    log.alts.append(log.taken + [False])
        log.pos += 1
        log.taken.append(b)
        val = b is True or b == 'T'
        if b == 'T' or b == 'F':
            return val
        lit = c if val else z3.Not(c)
        log.conds.append(lit)
        self.solver.add(lit)
        return val

    # ---------- obligations
    def prove(self, goal, name, kind='post'):
        """record and discharge an obligation under the current path condition"""
        top = self.logs[0]
        if top.replaying or self.quiet:
            if is_sym(goal):
                self.solver.add(goal)
            elif not goal:
                raise PathEnd()
            return True
        st = self.x.stats
        st.obligations += 1
        full = f'{self.x.label}: {name}'
        st.names[kind] = st.names.get(kind, 0) + 1
        if not is_sym(goal):
            if goal:
                st.discharged += 1
                st.by['trivial'] = st.by.get('trivial', 0) + 1
                return True
            goal = z3.BoolVal(False)
        if time.time() > self.x.deadline:
            st.failed.append(dict(name=full, kind=kind, status='not attempted: time budget of this function exhausted', model=None))
            raise PathEnd()
        neg = z3.Not(goal)
        t = time.time()
        self.solver.set('timeout', min(4000, self.x.timeout_ms))
        r = self.solver.check(neg)
        self.solver.set('timeout', self.x.timeout_ms)
        dt = time.time() - t
        st.solver_s += dt
        by = 'z3'
        model = None
        if r == z3.sat:
            model = self.solver.model()
        elif r == z3.unknown:
            who = self.portfolio(neg)
            if who:
                r, by = z3.unsat, who
            else:       # nobody proves it: a longer look for a counterexample
                self.solver.set('timeout', min(12000, self.x.timeout_ms))
                r = self.solver.check(neg)
                self.solver.set('timeout', self.x.timeout_ms)
                if r == z3.sat:
                    model = self.solver.model()
        if r == z3.unsat:
            st.discharged += 1
            st.by[by] = st.by.get(by, 0) + 1
            if self.x.crosscheck and by == 'z3':
                if self.second_opinion(neg) == 'unsat':
                    st.by['cvc5-crosscheck'] = st.by.get('cvc5-crosscheck', 0) + 1
        else:
            status = 'refuted' if r == z3.sat else 'unknown'
            rec = dict(name=full, kind=kind, status=status, model=None, goal=str(goal)[:6000])
            if model is not None:
                rec['model'] = str(model)[:4000]
                if self.x.on_model is not None:
                    try:
                        rec['inputs'] = self.x.on_model(self, model)
                    except Exception as e:
                        rec['inputs_error'] = repr(e)
                    cands = [rec.get('inputs')]
                    try:
                        for extra in self.x.small_hints(self):
                            self.push()
                            self.solver.add(neg, *extra)
                            self.solver.set('timeout', 3000)
                            if self.check() == z3.sat:
                                cands.append(self.x.on_model(self, self.solver.model()))
                            self.solver.set('timeout', self.x.timeout_ms)
                            self.pop()
                    except Exception as e:
                        rec['hint_error'] = repr(e)
                    rec['candidates'] = [c for c in cands if c is not None]
            st.failed.append(rec)
            if len(st.failed) >= self.x.max_fail:
                raise StopVerify()
        if z3.is_false(z3.simplify(goal)):
            raise PathEnd()
        self.solver.add(goal)
        return r == z3.unsat

    def second_opinion(self, neg):
        self.solver.push()
        self.solver.add(neg)
        smt = self.solver.to_smt2()
        self.solver.pop()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={self.x.timeout_ms}', '--arith-rewrite-equalities'],
                               input='(set-logic ALL)\n' + smt, capture_output=True, text=True,
                               timeout=self.x.timeout_ms / 1000 + 5)
            out = p.stdout.strip().split('\n')[0] if p.stdout else ''
            return out
        except Exception:
            return 'unknown'

    def portfolio(self, neg):
        """the incremental solver gave up: other solvers and seeds on the same obligation, in parallel"""
        self.solver.push()
        self.solver.add(neg)
        smt = self.solver.to_smt2()
        self.solver.pop()
        t = max(10, int(self.x.timeout_ms / 1000 * 2))
        t = min(t, max(10, int(self.x.deadline - time.time())))
        run = []
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'o.smt2')
            with open(p, 'w') as f:
                f.write('(set-logic ALL)\n' + smt)
            with open(p + 'z', 'w') as f:
                f.write(smt)
            for by, cmd in (('cvc5', ['cvc5', '--lang=smt2', f'--tlimit={t * 1000}', '--arith-rewrite-equalities', p]),
                            ('z3-cli', ['z3', f'-T:{t}', 'smt.random_seed=7', p + 'z']),
                            ('z3-new', ['z3-new', f'-T:{t}', p + 'z']),
                            ('z3-new', ['z3-new', f'-T:{t}', 'smt.arith.solver=2', 'smt.random_seed=3', p + 'z'])):
                try:
                    run.append((by, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            who = None
            end = time.time() + t + 5
            live = list(run)
            while live and who is None and time.time() < end:
                time.sleep(0.05)
                for by, q in list(live):
                    if q.poll() is not None:
                        live.remove((by, q))
                        out = q.stdout.read().strip().split('\n')
                        if out[0] == 'unsat' and not any('error' in l for l in out):
                            who = by
                            break
                        if out[0] == 'sat' and by != 'cvc5':
                            live = []
                            break
            for by, q in run:
                if q.poll() is None:
                    q.kill()
                q.wait()
                q.stdout.close()
        return who

    # ---------- products
    def add_stride(self, r):
        if r.get_id() not in self.strides:
            self.strides[r.get_id()] = (r, [])
            self.keep.append(r)
            self.register_mult(r, z3.IntVal(0))
            self.register_mult(r, z3.IntVal(1))

    def mono(self, atoms):
        atoms = sorted(atoms, key=lambda a: a.get_id())
        key = tuple(a.get_id() for a in atoms)
        if key not in self.monos:
            isreal = any(a.is_real() for a in atoms)
            nm = 'mul!' + '*'.join(str(a) if a.num_args() == 0 else f'#{a.get_id()}' for a in atoms)
            c = z3.Real(nm) if isreal else z3.Int(nm)
            if self.ghost.get('congr') and len(atoms) == 2:
                # products of equal factors are equal even where the solver has to find out that the factors are
                srt = z3.RealSort() if isreal else I
                x, y = [z3.ToReal(a) if isreal and not a.is_real() else a for a in atoms]
                f = z3.Function('times_r' if isreal else 'times', srt, srt, srt)
                c = f(x, y)
                self.keep.append(c)
                self.fact(c == f(y, x))
            self.monos[key] = c
            self.mono_of[c.get_id()] = atoms
            self.keep.append((c, atoms))
            if len(atoms) == 2:
                a, b = atoms
                if a.get_id() == b.get_id():
                    self.fact(z3.And(c >= 0, z3.Implies(a != 0, c >= (1 if not isreal else 0)), z3.Implies(a == 0, c == 0)))
                    if not isreal:
                        self.fact(z3.And(c >= a, c >= -a))
                else:
                    self.fact(z3.And(z3.Implies(z3.And(a >= 0, b >= 0), c >= 0),
                                     z3.Implies(z3.And(a >= 0, b <= 0), c <= 0),
                                     z3.Implies(z3.And(a <= 0, b >= 0), c <= 0),
                                     z3.Implies(z3.And(a <= 0, b <= 0), c >= 0)))
                    for p, q in ((a, b), (b, a)):
                        self.fact(z3.Implies(p == 0, c == 0))
                        self.fact(z3.Implies(p == 1, c == q))
                        self.fact(z3.Implies(p == -1, c == -q))
                    if not isreal:
                        for p, q in ((a, b), (b, a)):
                            self.fact(z3.Implies(z3.And(p >= 1, q >= 0), c >= q))
                    else:
                        for p, q in ((a, b), (b, a)):
                            self.fact(z3.Implies(z3.And(p >= 0, p <= 1, q >= 0), c <= q))
                            self.fact(z3.Implies(z3.And(p >= 0, p <= 1, q <= 0), c >= q))
                            self.fact(z3.Implies(z3.And(p >= 1, q >= 0), c >= q))
        return self.monos[key]

    def mul(self, a, b):
        if not is_sym(a) and not is_sym(b):
            return a * b
        a, b = lift(a), lift(b)
        da, ca = linform(a)
        db, cb = linform(b)
        if a.is_real() != b.is_real():
            if a.is_int():
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
            return self.rmul(a, b)
        if a.is_real():
            return self.rmul(a, b)
        if not da:
            return unlift(z3.IntVal(ca) * b) if ca != 0 else 0
        if not db:
            return unlift(z3.IntVal(cb) * a) if cb != 0 else 0
        for (u, du, cu, other) in ((b, db, cb, a), (a, da, ca, b)):
            if cu == 0 and len(du) == 1:
                (atom, k), = du.values()
                if k == 1 and atom.get_id() in self.strides:
                    self.register_mult(self.strides[atom.get_id()][0], other)
        return self._mullin(da, ca, db, cb)

    def _mullin(self, da, ca, db, cb):
        acc = {}
        const = ca * cb

        def put(atom, k):
            key = atom.get_id()
            if key in acc:
                acc[key] = (atom, acc[key][1] + k)
            else:
                acc[key] = (atom, k)
        for x, kx in da.values():
            if cb:
                put(x, kx * cb)
            ax = self.mono_of.get(x.get_id(), [x])
            for y, ky in db.values():
                ay = self.mono_of.get(y.get_id(), [y])
                put(self.mono(list(ax) + list(ay)), kx * ky)
        if ca:
            for y, ky in db.values():
                put(y, ky * ca)
        acc = {k: v for k, v in acc.items() if v[1] != 0}
        return unlift(fromlin(acc, const))

    def rmul(self, a, b):
        sa, sb = z3.simplify(a), z3.simplify(b)
        if z3.is_rational_value(sa) or z3.is_rational_value(sb):
            return z3.simplify(sa * sb)
        self.keep.append((sa, sb))
        da, ca = rlinform(sa)
        db, cb = rlinform(sb)
        acc, const = {}, ca * cb

        def put(atom, k):
            key = atom.get_id()
            acc[key] = (atom, acc[key][1] + k) if key in acc else (atom, k)
        for x, kx in da.values():
            if cb:
                put(x, kx * cb)
            ax = self.mono_of.get(x.get_id(), [x])
            for y, ky in db.values():
                ay = self.mono_of.get(y.get_id(), [y])
                put(self.mono(list(ax) + list(ay)), kx * ky)
        if ca:
            for y, ky in db.values():
                put(y, ky * ca)
        r = z3.Sum([z3.RealVal(const)] + [z3.RealVal(k) * a for a, k in acc.values() if k != 0])
        if len(da) > 1 and sa.get_id() == sb.get_id():
            self.fact(r >= 0)
        return z3.simplify(r)

    def pos(self, s, t):
        """s >= 0 and t >= 0 -> s*t >= 0"""
        s, t = lift(s), lift(t)
        self.fact(z3.Implies(z3.And(s >= 0, t >= 0), lift(self.mul(unlift(s), unlift(t))) >= 0))

    def register_mult(self, r, t):
        atom, mults = self.strides[r.get_id()]
        d, c = linform(t)
        t = fromlin(d, c)
        A = lift(self._mullin(d, c, {atom.get_id(): (atom, 1)}, 0))
        for (u, B, du, cu) in mults:
            if u.eq(t):
                return
        for (u, B, du, cu) in mults:
            # constant difference: the relation is linear already
            diff = linform(t - u)
            if not diff[0]:
                continue
            self.fact(z3.And(z3.Implies(t < u, A + atom <= B), z3.Implies(u < t, B + atom <= A),
                             z3.Implies(t == u, A == B)))
        mults.append((t, A, d, c))

    def stride_sign(self, diff):
        """for a difference that contains t*R (R a row length): R divides it, so t < 0 gives t*R <= -R and t > 0 gives t*R >= R"""
        d, c = linform(diff)
        per = {}
        for atom, k in d.values():
            aid = atom.get_id()
            if aid in self.strides:
                per.setdefault(aid, []).append((None, k))
                continue
            ats = self.mono_of.get(aid)
            if ats and len(ats) == 2:
                for i in (0, 1):
                    if ats[i].get_id() in self.strides:
                        per.setdefault(ats[i].get_id(), []).append((ats[1 - i], k))
                        break
        for rid, parts in per.items():
            if len(parts) < 2:
                continue
            R = self.strides[rid][0]
            t = z3.IntVal(0)
            for o, k in parts:
                t = t + (k if o is None else k * o)
            t = lift(unlift(t))
            if not is_sym(unlift(t)):
                continue
            key = ('ssign', rid, t.get_id())
            if key in self.fact_keys:
                continue
            A = lift(self.mul(unlift(t), R))
            self.keep.append(t)
            self.fact_keys[key] = t
            self.fact(z3.And(z3.Implies(t < 0, A + R <= 0), z3.Implies(t > 0, A >= R), z3.Implies(t == 0, A == 0)))

    # ---------- integer helper facts
    def divmod_c(self, a, m):
        """(a // m, a % m) for a constant m > 0; a linear form splits off its multiples of m when the rest is within 0..m-1"""
        a_ = lift(a)
        d, c = linform(a_)
        if len(d) > 1 or (d and c) or (d and list(d.values())[0][1] % m == 0):
            hi, lo = z3.IntVal(0), z3.IntVal(0)
            any_hi = False
            for atom, k in d.values():
                if k % m == 0:
                    hi = hi + atom * (k // m)
                    any_hi = True
                else:
                    lo = lo + atom * k
            if any_hi:
                hi = hi + c // m
                lo = lo + c % m
                lo = lift(unlift(lo))
                if self.valid(z3.And(lo >= 0, lo < m)):
                    return unlift(hi), unlift(lo)
                return unlift(hi + lo / m), unlift(lo % m)
        return unlift(a_ / m), unlift(a_ % m)

    def bitand_const(self, b, mask):
        """b & mask for a non-negative concrete mask (any integer b: two's complement semantics)"""
        if mask == 0:
            return 0
        if mask == 1 and self.ghost.get('bituf') and is_sym(b) and self.in_byte(b):
            if self.valid(lift(b) <= 1):
                return b
            from .bitmap import bits8
            return bits8(self, b)[0]
        if (mask & (mask + 1)) == 0:
            return self.divmod_c(b, mask + 1)[1]
        if self.ghost.get('bituf') and mask & (mask - 1) == 0 and mask <= 128 and is_sym(b) and self.in_byte(b):
            from .bitmap import bits8
            return unlift(bits8(self, b)[mask.bit_length() - 1] * mask)
        r = 0
        lo = 0
        m = mask
        while m:
            while not m & 1:
                m >>= 1
                lo += 1
            n = 0
            while m & 1:
                m >>= 1
                n += 1
            x = lift(b) if lo == 0 else lift(b) / (1 << lo)
            r = r + (x % (1 << n)) * (1 << lo)
            lo += n
        return unlift(r)

    def in_byte(self, v):
        if not is_sym(v):
            return isinstance(v, int) and 0 <= v <= 255
        return self.valid(z3.And(lift(v) >= 0, lift(v) <= 255))

    def bitop(self, op, a, b):
        if is_symbool(a):
            a = lift(a)
        if is_symbool(b):
            b = lift(b)
        if not is_sym(a) and not is_sym(b):
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
        if not is_sym(a):
            a, b = b, a
        if not is_sym(b):
            an = self.bitand_const(a, b) if b >= 0 else unlift(lift(a) - lift(self.bitand_const(a, ~b)))
            if op == '&':
                return an
            if op == '|':
                return unlift(lift(a) + b - an)
            return unlift(lift(a) + b - 2 * an)
        # both symbolic: bytes only
        if not (self.in_byte(a) and self.in_byte(b)) and self.ghost.get('bitfun'):
            # a function of its arguments (in either order); of numbers that are not negative it is not negative
            a, b = sorted([z3.simplify(lift(a)), z3.simplify(lift(b))], key=lambda t: t.get_id())
            r = z3.Function('bits' + op, I, I, I)(a, b)
            self.keep.append(r)
            self.fact_once(('bitfun', r.get_id()), z3.Implies(z3.And(a >= 0, b >= 0), r >= 0))
            return r
        if not (self.in_byte(a) and self.in_byte(b)):
            raise Unsupported('bit operation on two unbounded symbolic integers')
        f = {'&': lambda p, q: z3.If(z3.And(p == 1, q == 1), 1, 0), '|': lambda p, q: z3.If(z3.Or(p == 1, q == 1), 1, 0),
             '^': lambda p, q: z3.If(p != q, 1, 0)}[op]
        from .bitmap import bits8, mk8
        return mk8(self, [unlift(f(lift(p), lift(q))) for p, q in zip(bits8(self, a), bits8(self, b))])

    def small_values(self, v, lo=0, hi=64):
        """concrete value of a term with a small range, by forking"""
        if not is_sym(v):
            return v
        s = unlift(v)
        if not is_sym(s):
            return s
        if not self.valid(z3.And(v >= lo, v <= hi)):
            raise Unsupported('unbounded shift/selector')
        for i in range(lo, hi):
            if self.decide(v == i):
                return i
        self.assume(v == hi)
        return hi

    def binop(self, op, a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque('str')
            if op == '%' and isinstance(a, str):
                return Opaque('str')
            if not is_sym(a) and not is_sym(b):
                try:
                    if op == '+':
                        return a + b
                    if op == '*':
                        return a * b
                except TypeError as e:
                    raise PyExc('TypeError', str(e))
            raise Unsupported(f'{op} on {type(a).__name__},{type(b).__name__}')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('val')
        if a is None or b is None:
            raise PyExc('TypeError', 'None operand')
        if isinstance(a, cx.Cx) or isinstance(b, cx.Cx) or (isinstance(a, complex) or isinstance(b, complex)) and (is_sym(a) or is_sym(b)):
            v = cx.binop(self, op, a, b)
            if v is None:
                raise PyExc('TypeError', f'{op} on complex numbers')
            return v
        if not is_sym(a) and not is_sym(b):
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b,
                        '%': lambda: a % b, '**': lambda: a ** b, '<<': lambda: a << b, '>>': lambda: a >> b,
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
            except ZeroDivisionError as e:
                raise PyExc('ZeroDivisionError', str(e))
            except TypeError as e:
                raise PyExc('TypeError', str(e))
            except ValueError as e:
                raise PyExc('ValueError', str(e))
        if op in '&|^' and is_symbool(a) and is_symbool(b):
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            self.floats_used = True
        a_, b_ = lift(a), lift(b)
        real = a_.is_real() or b_.is_real()
        if real:
            self.floats_used = True
            if a_.is_int():
                a_ = z3.ToReal(a_)
            if b_.is_int():
                b_ = z3.ToReal(b_)
        if op == '+':
            return self.add(a_, b_)
        if op == '-':
            return self.add(a_, -b_)
        if op == '*':
            return self.mul(a_, b_)
        if op == '/':
            self.floats_used = True
            if a_.is_int():
                a_ = z3.ToReal(a_)
            if b_.is_int():
                b_ = z3.ToReal(b_)
            self.no_exc(b_ != 0, 'ZeroDivisionError')
            sb = z3.simplify(b_)
            if z3.is_rational_value(sb):
                return z3.simplify(a_ / sb)
            q = self.fresh_real('q') if not self.ghost.get('congr') else z3.Function('quotient', z3.RealSort(), z3.RealSort(), z3.RealSort())(z3.simplify(a_), sb)
            self.keep.append((a_, sb, q))
            # q = a/b : sign and unit facts
            self.fact(z3.And(z3.Implies(z3.And(b_ > 0, a_ >= 0), q >= 0), z3.Implies(z3.And(b_ > 0, a_ <= 0), q <= 0),
                             z3.Implies(z3.And(b_ > 0, a_ <= b_), q <= 1), z3.Implies(z3.And(b_ > 0, a_ >= b_), q >= 1),
                             z3.Implies(a_ == 0, q == 0), z3.Implies(a_ == b_, q == 1)))
            d, c = {q.get_id(): (q, 1)}, 0
            self.fact(self.rmul(q, sb) == a_)
            return q
        if op in ('//', '%'):
            if real:
                raise Unsupported('float floor division')
            if not is_sym(b):
                self.no_exc(b != 0, 'ZeroDivisionError')
                if b > 0:
                    return self.divmod_c(a_, b)[0 if op == '//' else 1]
            else:
                self.no_exc(b_ != 0, 'ZeroDivisionError')
                if self.valid(b_ > 0):
                    mk_ = ('quorem', z3.simplify(a_).get_id(), z3.simplify(b_).get_id())
                    if self.ghost.get('congr') and mk_ in self.rc_memo:
                        return self.rc_memo[mk_][0 if op == '//' else 1]
                    q, r = self.fresh('quo'), self.fresh('rem')
                    if self.ghost.get('congr'):
                        self.rc_memo[mk_] = (q, r, z3.simplify(a_), z3.simplify(b_))
                    if b_.get_id() not in self.strides:
                        d, c = linform(b_)
                        if len(d) == 1 and c == 0 and list(d.values())[0][1] == 1:
                            self.add_stride(list(d.values())[0][0])
                    self.fact(z3.And(a_ == lift(self.mul(q, b_)) + r, r >= 0, r < b_))
                    if self.ghost.get('modfun'):        # the remainder as a function, for specifications that mention it
                        self.fact(r == REM(a_, b_))
                    self.keep.append((a_, b_))
                    return q if op == '//' else r
            raise Unsupported('division by a possibly negative divisor')
        if op == '<<':
            if is_sym(b) and not is_sym(a):
                return a << self.small_values(b)
            b = self.small_values(b)
            self.no_exc(b >= 0, 'ValueError')
            return self.mul(a_, 1 << b)
        if op == '>>':
            b = self.small_values(b)
            self.no_exc(b >= 0, 'ValueError')
            return self.divmod_c(a_, 1 << b)[0]
        if op == '**':
            if not is_sym(b) and isinstance(b, int) and 0 <= b <= 6:
                r = 1
                for _ in range(b):
                    r = self.mul(r, a)
                return r
            if (is_symreal(a) or is_symreal(b)) and 'pow' in self.ghost:
                # the power of two real numbers: a function of its arguments, described by the facts the check supplies
                R_ = z3.RealSort()
                r = z3.Function('pow', R_, R_, R_)(*[z3.ToReal(v) if v.sort() == I else v for v in (lift(a), lift(b))])
                self.fact_once(('pow', r.get_id()), self.ghost['pow'](lift(a), lift(b), r))
                self.keep.append(r)
                self.x.stats.assumed.add('float power') if hasattr(self.x, 'stats') else None
                return r
            raise Unsupported('symbolic power')
        raise Unsupported(op)

    def add(self, a, b):
        r = unlift(a + b)
        if self.abbrev and is_sym(r):
            d, c = linform(r)
            if 2 <= len(d) <= 9 and c == 0:
                key = frozenset((k, v[1]) for k, v in d.items())
                if key in self.abbrev:
                    return self.abbrev[key]
        return r

    def no_exc(self, cond, tname):
        """either prove the operation cannot raise, or (inside try) fork"""
        if not is_sym(cond):
            if not cond:
                raise PyExc(tname)
            return
        if self.trydepth:
            if not self.decide(cond):
                raise PyExc(tname)
            return
        self.prove(cond, f'no {tname} at {self.where()}', 'safety')

    def where(self):
        return '>'.join(self.func_stack[-3:])

    # ---------- comparisons
    def compare(self, op, a, b):
        if op in ('in', 'notin'):
            r = self.contains(a, b)
            return not_(r) if op == 'notin' else r
        if op in ('is', 'isnot'):
            if is_sym(a) or is_sym(b):
                if a is None or b is None:
                    r = False
                else:
                    raise Unsupported('is on symbolic')
            else:
                r = a is b
            return r if op == 'is' else not r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh_bool('opq')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if op in ('==', '!='):
                r = self.arr_eq(a, b)
                return r if op == '==' else not_(r)
            raise Unsupported('ordering of sequences')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if op in ('==', '!='):
                if len(a) != len(b):
                    r = False
                else:
                    r = and_(*[self.compare('==', x, y) for x, y in zip(a, b)])
                return r if op == '==' else not_(r)
            raise Unsupported('tuple order')
        if isinstance(a, cx.Cx) or isinstance(b, cx.Cx) or (isinstance(a, complex) or isinstance(b, complex)) and (is_sym(a) or is_sym(b)):
            if op not in ('==', '!='):
                raise PyExc('TypeError', 'complex numbers have no order')
            if not all(is_sym(v) or isinstance(v, (cx.Cx, complex, int, float)) for v in (a, b)):
                return op == '!='
            v = cx.equal(a, b)
            return v if op == '==' else not_(v)
        if not is_sym(a) and not is_sym(b):
            try:
                return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                        '>': lambda: a > b, '>=': lambda: a >= b}[op]()
            except TypeError as e:
                raise PyExc('TypeError', str(e))
        num = (int, float, bool)
        if not ((is_sym(a) or isinstance(a, num)) and (is_sym(b) or isinstance(b, num))):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise PyExc('TypeError', 'unorderable')
        if is_symbool(a) and is_symbool(b) and op in ('==', '!='):
            return a == b if op == '==' else a != b
        a, b = lift(a), lift(b)
        if self.strides and a.is_int() and b.is_int():
            self.stride_sign(a - b)
        r = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
             '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        return unlift(r)

    def contains(self, a, b):
        if isinstance(b, (dict, set, frozenset)):
            if is_sym(a):
                return or_(*[self.compare('==', a, k) for k in b])
            return a in b
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, tuple):
            return or_(*[self.compare('==', a, x) for x in b])
        if isinstance(b, (list, dict)):
            return or_(*[self.compare('==', a, x) for x in b])
        if isinstance(b, Arr):
            if b.counts:
                return unlift(lift(b.view(a)) != 0)
            if b.items is not None:
                return or_(*[self.compare('==', a, x) for x in b.items])
            g = getattr(b, 'member', None)
            if g is not None:
                return g(a)
            # unknown membership: over-approximated by an arbitrary boolean
            return self.fresh_bool('member')
        raise Unsupported('in')

    def truth(self, v):
        if isinstance(v, Arr) and v.counts:
            raise Unsupported('truth of a dictionary with symbolic keys')
        if is_sym(v):
            return self.decide(v if is_symbool(v) else v != 0)
        if isinstance(v, Arr):
            if is_sym(v.length):
                return self.decide(v.length > 0)
            return v.length > 0
        if isinstance(v, Opaque):
            return self.decide(self.fresh_bool('opq'))
        if isinstance(v, cx.Cx):
            return self.decide(cx.nonzero(v))
        return bool(v)

    # ---------- arrays
    def arr_eq(self, a, b):
        if not (isinstance(a, Arr) and isinstance(b, Arr)):
            return False
        ka = 'list' if a.kind == 'list' else 'arr'
        kb = 'list' if b.kind == 'list' else 'arr'
        if ka != kb and not ('bytes' in (a.kind, b.kind)):
            return False
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return and_(*[self.compare('==', x, y) for x, y in zip(a.items, b.items)])
        if (a.items is not None and len(a.items) == 0):
            return lift(b.length) == 0
        if (b.items is not None and len(b.items) == 0):
            return lift(a.length) == 0
        raise Unsupported('equality of symbolic sequences')

    def arr_binop(self, op, a, b):
        if op == '+' and isinstance(a, Arr) and isinstance(b, Arr):
            r = self.copy(a)
            self.extend(r, b)
            return r
        if op == '*':
            if not isinstance(a, Arr):
                a, b = b, a
            if not is_sym(b):
                if a.items is not None:
                    return self.mk(a.kind, items=list(a.items) * b)
                b = lift(b)
            n = b
            if a.items is None:
                raise Unsupported('repeat of symbolic sequence')
            m = len(a.items)
            its = list(a.items)
            if self.valid(n >= 0):
                ln = n * m if m != 1 else n
            elif self.decide(n >= 0):
                ln = n * m if m != 1 else n
            else:
                return self.mk(a.kind, items=[])
            if m == 0:
                return self.mk(a.kind, items=[])

            def view(j):
                if m == 1:
                    return its[0]
                if not is_sym(j):
                    return its[j % m]
                return items_view(its, unlift(j % m))
            r = self.mk(a.kind, length=unlift(ln), view=view)
            return r
        raise Unsupported(f'sequence operator {op}')

    def copy(self, a, kind=None):
        if a.counts:
            raise Unsupported('copy of a dictionary with symbolic keys')
        if a.items is not None:
            return self.mk(kind or a.kind, items=list(a.items))
        s = a.snapshot()
        r = self.mk(kind or a.kind, length=a.length, view=s)
        r.member = a.member
        return r

    def extend(self, a, b):
        if a.kind == 'B' and b.kind == 'list':
            self.check_bytes(b)
        if a.items is not None and b.items is not None:
            a.touch()
            a.items = a.items + list(b.items)
            a.length = len(a.items)
            return
        la, lb = a.length, b.length
        va, vb = a.snapshot(), b.snapshot()
        mem = a.member

        def view(j):
            c = unlift(lift(j) < lift(la))
            if not is_sym(c):
                return va(j) if c else vb(unlift(lift(j) - lift(la)))
            u, w = va(j), vb(unlift(lift(j) - lift(la)))
            try:
                return merge_val(c, u, w)
            except NeedFork:
                if self.valid(c):
                    return u
                if self.valid(z3.Not(c)):
                    return w
                raise
        if a.items is not None and len(a.items) == 0:
            view = vb
        a.set_view(view, unlift(lift(la) + lift(lb)))
        if mem is not None and b.items is not None:
            new = list(b.items)
            a.member = lambda v: or_(mem(v), *[self.compare('==', v, x) for x in new])

    def check_bytes(self, b):
        """all elements of b are in 0..255 (array('B') construction / store)"""
        if b.kind in ('B', 'bytes'):
            return
        if b.items is not None:
            for v in b.items:
                self.byte_ok(v)
            return
        j = self.fresh('jb')
        self.push()
        self.solver.add(j >= 0, j < lift(b.length))
        v = b.view(j)
        self.byte_ok(v)
        self.pop()

    def byte_ok(self, v):
        if isinstance(v, bool):
            return
        if not is_sym(v):
            if not isinstance(v, int):
                raise PyExc('TypeError', 'array item must be integer')
            if not 0 <= v <= 255:
                raise PyExc('OverflowError', f'{v} not a byte')
            return
        if is_symreal(v):
            raise PyExc('TypeError', 'float stored in byte array')
        v = lift(v)
        self.prove(z3.And(v >= 0, v <= 255), f'byte range (no OverflowError) at {self.where()}', 'safety')

    def norm_index(self, a, i):
        n = lift(a.length)
        if is_symreal(i) or isinstance(i, float):
            raise PyExc('TypeError', 'float index')
        if isinstance(i, Opaque):
            raise Unsupported('opaque index')
        if not is_sym(i) and not is_sym(a.length):
            if not -a.length <= i < a.length:
                raise PyExc('IndexError', f'{i}')
            return i if i >= 0 else i + a.length
        i_ = lift(i)
        if is_sym(i):
            if self.valid(i_ >= 0):
                self.no_exc(i_ < n, 'IndexError')
                return i
            if self.valid(i_ < 0):
                self.no_exc(i_ >= -n, 'IndexError')
                return unlift(i_ + n)
            self.no_exc(z3.And(i_ >= -n, i_ < n), 'IndexError')
            if self.decide(i_ >= 0):
                return i
            return unlift(i_ + n)
        if i >= 0:
            self.no_exc(i_ < n, 'IndexError')
            return i
        self.no_exc(n >= -i, 'IndexError')
        return unlift(n + i)

    def slice_bounds(self, a, sl):
        """python slice semantics -> (start, stop, step) normalised, 0<=start<=len etc."""
        s, e, st = sl
        if st is None:
            st = 1
        n = a.length

        def clamp(v, default):
            if v is None:
                return default
            if isinstance(v, (float, tuple)) or is_symreal(v):
                raise PyExc('TypeError', 'slice indices must be integers')
            if isinstance(v, bool):
                v = int(v)
            if not is_sym(v) and not is_sym(n):
                if v < 0:
                    v = max(0, v + n)
                return min(v, n)
            v_, n_ = lift(v), lift(n)
            if not self.decide(v_ >= 0):
                v_ = v_ + n_
                if not self.decide(v_ >= 0):
                    return 0
                return unlift(v_)
            if not self.decide(v_ <= n_):
                return n
            return v
        if not is_sym(st) and st < 0:
            raise Unsupported('negative slice step')
        if is_sym(st):
            self.no_exc(lift(st) > 0, 'ValueError')
        return clamp(s, 0), clamp(e, n), st

    def slice_count(self, s, e, st):
        if not is_sym(st) and st == 1:
            if not is_sym(s) and not is_sym(e):
                return max(0, e - s)
            if self.decide(lift(s) <= lift(e)):
                return unlift(lift(e) - lift(s))
            return 0
        if not is_sym(s) and not is_sym(e) and not is_sym(st):
            return len(range(s, e, st))
        if not self.decide(lift(s) < lift(e)):
            return 0
        L = unlift(lift(e) - lift(s))
        if not is_sym(st):
            return unlift((lift(L) + (st - 1)) / st)
        st_ = lift(st)
        d, c = linform(lift(L))
        m, rest = z3.IntVal(0), z3.IntVal(c)
        for atom, k in d.values():
            ats = self.mono_of.get(atom.get_id())
            if atom.get_id() == st_.get_id():
                m = m + k
            elif ats and len(ats) == 2 and any(x.get_id() == st_.get_id() for x in ats):
                m = m + k * (ats[0] if ats[1].get_id() == st_.get_id() else ats[1])
            else:
                rest = rest + k * atom
        if d:
            m, rest = unlift(m), lift(unlift(rest))
            if self.valid(z3.And(rest > -st_, rest <= 0)):
                return m
            if self.valid(z3.And(rest > 0, rest <= st_)):
                return unlift(lift(m) + 1)
        q = self.fresh('cnt')
        # (q-1)*st < L <= q*st
        Q = lift(self.mul(q, st))
        self.fact(z3.And(q >= 1, Q - st < L, lift(L) <= Q))
        return q

    def get_slice(self, a, sl):
        if isinstance(a, str):
            return a[slice(*sl)]
        if isinstance(a, tuple):
            return a[slice(*sl)]
        s, e, st = self.slice_bounds(a, sl)
        cnt = self.slice_count(s, e, st)
        if a.items is not None and not is_sym(s) and not is_sym(e) and not is_sym(st):
            return self.mk(a.kind, items=a.items[s:e:st])
        v = a.snapshot()
        if a.bmp is not None and is_sym(s) and is_sym(a.bmp.R):
            self.rc(a.bmp, s)
        if not is_sym(cnt) and cnt <= 16:
            return self.mk(a.kind, items=[v(unlift(lift(s) + lift(self.mul(i, st)))) for i in range(cnt)])

        def view(j):
            return v(unlift(lift(s) + lift(self.mul(j, st))))
        return self.mk(a.kind, length=cnt, view=view)

    def set_slice(self, a, sl, b):
        if not isinstance(b, Arr):
            if isinstance(b, tuple):
                b = self.mk('list', items=list(b))
            elif isinstance(b, (GenObj, RangeObj)):
                b = self.to_list(b)
            else:
                raise PyExc('TypeError', 'slice assignment needs a sequence')
        if a.kind == 'B':
            if b.kind == 'list':
                raise PyExc('TypeError', 'can only assign array to array slice')
        s, e, st = self.slice_bounds(a, sl)
        ext = is_sym(st) or st != 1
        cnt = self.slice_count(s, e, st)
        lb = b.length
        eq = unlift(lift(lb) == lift(cnt))
        if ext:
            if not is_sym(eq):
                if not eq:
                    raise PyExc('ValueError', 'extended slice size mismatch')
            else:
                self.no_exc(eq, 'ValueError')
        else:
            if self.decide(eq) is False:
                # resizing assignment
                va, vb, la = a.snapshot(), b.snapshot(), a.length
                e2 = unlift(lift(s) + lift(cnt))

                def view(j):
                    j_ = lift(j)
                    return merge_val(j_ < lift(s), va(j), merge_val(j_ < lift(s) + lift(lb), vb(unlift(j_ - lift(s))),
                                                                    va(unlift(j_ - lift(lb) + lift(cnt)))))
                a.set_view(view, unlift(lift(la) - lift(cnt) + lift(lb)))
                return
        if not is_sym(cnt) and cnt == 0:
            return
        if a.items is not None and not is_sym(s) and not is_sym(cnt) and not is_sym(st):
            a.touch()
            vb = b.snapshot()
            for i in range(cnt):
                a.items[s + i * st] = vb(i)
            return
        if a.items is None and not is_sym(s) and not is_sym(cnt) and not is_sym(st) and not self.depth and (cnt <= 64 or cnt <= 2048 and b.items is not None):
            vb = b.snapshot()
            a.put_concrete({s + i * st: vb(i) for i in range(cnt)})
            return
        va0, vb = a.snapshot(), b.snapshot()
        lo = self.above_header(a, s)
        va = va0
        if not is_sym(cnt) and cnt <= 8:
            pos = [(unlift(lift(s) + lift(self.mul(i, st))), vb(i)) for i in range(cnt)]

            def view(j):
                r = va(j)
                for p, val in pos:
                    c = unlift(lift(j) == lift(p))
                    if not is_sym(c):
                        if c:
                            return val
                    else:
                        r = merge_val(c, val, r)
                return r
        elif not ext and self.in_row(a, s, cnt):
            bm = a.bmp
            srow, scol = self.rc(bm, s)

            def view(j):
                if not is_sym(j) and j < bm.hdr:
                    return va(j)
                row, col = self.rc(bm, j)
                q = unlift(lift(col) - lift(scol))
                c = unlift(z3.And(lift(j) >= bm.hdr, lift(row) == lift(srow), lift(q) >= 0, lift(q) < lift(cnt)))
                return merge_val(c, vb(q), va(j)) if is_sym(c) else (vb(q) if c else va(j))
        elif not ext:
            def view(j):
                j_ = lift(j)
                c = unlift(z3.And(lift(s) <= j_, j_ < lift(s) + lift(cnt)))
                if not is_sym(c):
                    return vb(unlift(j_ - lift(s))) if c else va(j)
                return merge_val(c, vb(unlift(j_ - lift(s))), va(j))
        elif a.bmp is not None and is_sym(st) and lift(st).eq(lift(a.bmp.R)) and \
                self.valid(z3.And(lift(s) >= a.bmp.hdr, lift(s) < lift(a.bmp.length))):
            bm = a.bmp
            srow, scol = self.rc(bm, s)

            def view(j):
                if not is_sym(j) and j < bm.hdr:
                    return va(j)
                row, col = self.rc(bm, j)
                q = unlift(lift(row) - lift(srow))
                c = unlift(z3.And(lift(j) >= bm.hdr, lift(col) == lift(scol), lift(q) >= 0, lift(q) < lift(cnt)))
                return merge_val(c, vb(q), va(j)) if is_sym(c) else (vb(q) if c else va(j))
        else:
            def view(j):
                j_ = lift(j)
                if not is_sym(st):
                    q, r = (j_ - lift(s)) / st, (j_ - lift(s)) % st
                else:
                    key = ('div', j_.get_id(), lift(s).get_id(), st.get_id())
                    if key not in self.rc_memo:
                        q, r = self.fresh('sq'), self.fresh('sr')
                        self.fact(z3.And(j_ - lift(s) == lift(self.mul(q, st)) + r, r >= 0, r < st))
                        self.rc_memo[key] = (q, r, j_, lift(s))
                    q, r = self.rc_memo[key][:2]
                c = z3.And(r == 0, q >= 0, q < lift(cnt))
                return merge_val(c, vb(q), va(j))
        if lo:
            a.set_view(lambda j: va0(j) if not is_sym(j) and j < lo else view(j))
        else:
            a.set_view(view)

    def in_row(self, a, s, cnt):
        """the byte range s..s+cnt provably lies in the pixel area within one row of the bitmap a"""
        if a.bmp is None or not is_sym(s) or not is_sym(a.bmp.R) or self.depth and self.pure_below >= 0:
            return False
        bm = a.bmp
        if not self.valid(z3.And(lift(s) >= bm.hdr, lift(s) + lift(cnt) <= lift(bm.length))):
            return False
        row, col = self.rc(bm, s)
        return self.valid(lift(col) + lift(cnt) <= lift(bm.R))

    def set_index(self, a, i, v):
        if isinstance(a, dict):
            if is_sym(i):
                raise Unsupported('symbolic dict key')
            a[self.hashable(i)] = v
            return
        if not isinstance(a, Arr):
            raise Unsupported(f'item assignment on {type(a).__name__}')
        if a.counts:
            self.prove(z3.And(lift(i) >= 0, lift(i) < lift(a.length), lift(v) != 0), 'a counter is never stored as 0')
        if a.kind == 'bytes':
            raise PyExc('TypeError', 'bytes are immutable')
        i = self.norm_index(a, i)
        if a.kind == 'B':
            self.byte_ok(v)
            v = lift(v) if is_symbool(v) else v
        if a.items is not None and not is_sym(i):
            a.touch()
            a.items[i] = v
            return
        if a.items is None and not is_sym(i) and not self.depth:
            a.put_concrete({i: v})
            return
        va = a.snapshot()
        lo = self.above_header(a, i)

        def view(j):
            if lo and not is_sym(j) and j < lo:
                return va(j)
            c = unlift(lift(j) == lift(i))
            if not is_sym(c):
                return v if c else va(j)
            return merge_val(c, v, va(j))
        a.set_view(view)

    def above_header(self, a, i):
        """header size if the store position is provably behind the header"""
        if a.bmp is None or not is_sym(i):
            return 0
        return a.bmp.hdr if self.valid(lift(i) >= a.bmp.hdr) else 0

    def hashable(self, k):
        if isinstance(k, Arr):
            raise PyExc('TypeError', 'unhashable')
        return k

    def get_index(self, a, i):
        if isinstance(a, Arr):
            if a.counts:
                v = a.view(i)
                self.no_exc(unlift(lift(v) != 0), 'KeyError')
                return v
            i = self.norm_index(a, i)
            v = a.view(i)
            return v
        if isinstance(a, (tuple, str)):
            if is_sym(i):
                n = len(a)
                if isinstance(a, tuple):
                    self.no_exc(z3.And(i >= 0, i < n), 'IndexError')
                    return items_view(list(a), i)
                raise Unsupported('symbolic index into str')
            try:
                return a[i]
            except IndexError as e:
                raise PyExc('IndexError', str(e))
        if isinstance(a, dict):
            if is_sym(i):
                ks = [k for k in a if isinstance(k, int)]
                for k in ks:
                    if self.decide(i == k):
                        return self.wrap(a[k])
                raise PyExc('KeyError', str(i))
            try:
                return self.wrap(a[self.hashable(i)])
            except KeyError as e:
                raise PyExc('KeyError', str(e))
        if isinstance(a, Opaque):
            return Opaque('item')
        if hasattr(a, 'lookup'):
            return a.lookup(i)
        raise Unsupported(f'index {type(a).__name__}')

    def wrap(self, v):
        """import a concrete python value into the symbolic heap"""
        if isinstance(v, (bytes, bytearray, _array, list)):
            key = id(v)
            if key in self.glob_cache:
                return self.glob_cache[key][0]
            kind = 'list' if isinstance(v, list) else ('bytes' if isinstance(v, bytes) else 'B')
            items = [self.wrap(x) for x in v] if isinstance(v, list) else list(v)
            r = self.mk(kind, items=items)
            self.glob_cache[key] = (r, v)
            return r
        if isinstance(v, tuple):
            return tuple(self.wrap(x) for x in v)
        return v

    # ---------- rows/columns of a bitmap buffer
    def rc(self, bmp, j):
        """(row, col) of byte offset j in the pixel area: j = hdr + row*R + col, 0 <= col < R"""
        j_ = lift(j)
        key = ('rc', bmp.uid, j_.get_id())
        if key in self.rc_memo:
            return self.rc_memo[key][:2]
        for d in reversed(self.scopes):
            if key in d:
                return d[key][:2]
        R = bmp.R
        res = None
        exact = False
        d, c = linform(j_)
        row, col = 0, c - bmp.hdr if not is_sym(bmp.hdr) else None
        ok = col is not None
        rid = R.get_id()
        if ok:
            col = z3.IntVal(col)
            rowt = z3.IntVal(0)
            for atom, k in d.values():
                if atom.get_id() == rid:
                    rowt = rowt + k
                    continue
                ats = self.mono_of.get(atom.get_id())
                if ats and len(ats) == 2 and any(x.get_id() == rid for x in ats):
                    o = ats[0] if ats[1].get_id() == rid else ats[1]
                    rowt = rowt + k * o
                else:
                    col = col + k * atom
            row, col = lift(unlift(rowt)), lift(unlift(col))
            if self.valid(z3.And(col >= 0, col < R)):
                res = (unlift(row), unlift(col))
        if res is None:
            exact = True
            r, c = self.fresh('row'), self.fresh('col')
            self.fact(z3.And(j_ == bmp.hdr + lift(self.mul(r, R)) + c, c >= 0, c < R))
            res = (r, c)
        else:
            self.register_mult(R, lift(res[0]))
        if exact or self.depth == 0:
            self.rc_memo[key] = (res[0], res[1], j_)
        else:
            self.scopes[-1][key] = (res[0], res[1], j_)
        return res
