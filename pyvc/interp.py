"""pyvc: the interpreter half of the VC generator (statements, expressions, loops, calls)."""
import ast
import builtins
import cmath
import math
import types
import functools
import inspect
from array import array as _array
import z3
from .terms import *
from .engine import *
from . import cx
from .engine import _array as _arr_t

UNROLL = 4100
MAXDEPTH = 60


class Poison:
    def __init__(self, why):
        self.why = why


class SeqObj:
    """finite sequence with symbolic length"""
    def __init__(self, n, get):
        self.n, self.get = n, get


class MapObj(SeqObj):
    """a dictionary known by contract: n keys, key(i) the i-th one; get(k) its value at a key that iteration gave"""
    def __init__(self, n, key, value):
        super().__init__(n, self.at)
        self.key, self.value, self.given = key, value, []

    def at(self, i):
        k = self.key(i)
        self.given.append(k)
        return k

    def lookup(self, k):
        if not any(k is g or is_sym(k) and is_sym(g) and k.eq(g) for g in self.given):
            raise Unsupported('lookup of a key that was not given by iteration')
        return self.value(k)


EXC_PARENTS = {
    'IndexError': ('LookupError',), 'KeyError': ('LookupError',), 'FileExistsError': ('OSError',),
    'FileNotFoundError': ('OSError',), 'ZeroDivisionError': ('ArithmeticError',), 'OverflowError': ('ArithmeticError',),
}


class Ctx(Exec):
    # ------------------------------------------------------------ pure merged evaluation
    def merge_eval(self, thunk, cond=True):
        """evaluate a side-effect free thunk under cond, exploring its forks locally; merged value"""
        results = []
        stack = [[]]
        save = self.pure_below
        fs = len(self.frames)
        nf = len(self.func_stack)
        n = 0
        while stack:
            pre = stack.pop()
            n += 1
            if n > 64:
                raise NeedFork()
            self.push()
            log = DecLog(pre)
            self.logs.append(log)
            self.pure_below = self.oids
            try:
                if cond is not True:
                    self.solver.add(cond)
                v = thunk()
                results.append((and_(*log.conds), v))
            except PathEnd:
                pass
            except (PyExc, BreakEx, ContinueEx, ReturnEx):
                raise NeedFork()
            finally:
                self.pure_below = save
                self.logs.pop()
                self.pop()
                del self.frames[fs:]
                del self.func_stack[nf:]
            stack.extend(log.alts)
        if not results:
            raise PathEnd()
        r = results[-1][1]
        for c, v in reversed(results[:-1]):
            r = merge_val(c if is_sym(c) else z3.BoolVal(bool(c)), v, r)
        return r

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, UFunc):
            return f.impl(self, *args, **kwargs)
        if isinstance(f, BoundMethod):
            return self.call_method(f.obj, f.name, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        h = None
        try:
            h = BUILTINS.get(f)
        except TypeError:
            pass
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, types.FunctionType):
            key = (f.__module__, f.__qualname__)
            if key != self.x.target or self.calldepth > 0:
                h = self.reg.get(key)
                if h is not None:
                    r = h(self, *args, **kwargs)
                    if r is not NotImplemented:
                        self.x.stats.used_contracts.add(f'{key[0].split(".")[-1]}.{key[1]}')
                        return r
            mod = f.__module__ or ''
            if not (mod.startswith('pythonbmp') or mod in self.x.inline_modules):
                return self.native(f, args, kwargs)
            if mod.startswith('pythonbmp'):
                self.x.stats.inlined.add(f'{mod.split(".")[-1]}.{f.__qualname__}')
            node = func_ast(f)
            cenv = None
            if f.__closure__:
                cenv = Env(None, '<cells>', f.__globals__)
                for nme, c in zip(f.__code__.co_freevars, f.__closure__):
                    cenv.vars[nme] = self.wrap(c.cell_contents)
            defaults = [self.wrap(d) for d in (f.__defaults__ or ())]
            kwd = {k: self.wrap(v) for k, v in (f.__kwdefaults__ or {}).items()}
            c = Closure(node, cenv, f.__globals__, f.__name__, defaults, kwd)
            return self.call_closure(c, args, kwargs)
        if f in (types.FunctionType,):
            raise Unsupported('type call')
        h = self.reg.get((getattr(f, '__module__', None), getattr(f, '__name__', None))) if not isinstance(f, type) else None
        if h is not None:
            r = h(self, *args, **kwargs)
            if r is not NotImplemented:
                self.x.stats.used_contracts.add(f'{f.__module__}.{f.__name__}')
                return r
        return self.native(f, args, kwargs)

    def native(self, f, args, kwargs):
        """a C-implemented or external function: only with concrete arguments"""
        def conc(v):
            if is_sym(v) or isinstance(v, (Closure, GenObj, SeqObj, UFunc, cx.Cx)):
                raise Unsupported(f'external call {getattr(f, "__name__", f)!r} with symbolic argument')
            if isinstance(v, Opaque):
                raise _OpaqueArg()
            if isinstance(v, Arr):
                if v.items is None:
                    raise Unsupported(f'external call {getattr(f, "__name__", f)!r} with symbolic sequence')
                its = [conc(i) for i in v.items]
                return its if v.kind == 'list' else (_array('B', its) if v.kind == 'B' else bytes(its))
            if isinstance(v, tuple):
                return tuple(conc(i) for i in v)
            return v
        try:
            a = [conc(v) for v in args]
            k = {n: conc(v) for n, v in kwargs.items()}
        except _OpaqueArg:
            return Opaque(getattr(f, '__name__', 'ext'))
        if getattr(f, '__module__', None) not in ('math', 'builtins', 'cmath', 'collections') and \
                not isinstance(f, type) and not hasattr(f, '__self__'):
            raise Unsupported(f'external call {f!r}')
        try:
            return self.wrap(f(*a, **k))
        except (TypeError, ValueError, ZeroDivisionError, OverflowError, IndexError, KeyError) as e:
            raise PyExc(type(e).__name__, str(e))

    def bind_args(self, node, args, kwargs, defaults, kwd, name):
        a = node.args
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and a.vararg is None:
            raise PyExc('TypeError', f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
        for i, nme in enumerate(pos):
            if i < len(args):
                out[nme] = args[i]
            elif nme in kwargs:
                out[nme] = kwargs.pop(nme)
            else:
                di = i - (len(pos) - len(defaults))
                if di < 0:
                    raise PyExc('TypeError', f'{name}() missing {nme}')
                out[nme] = defaults[di]
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(pos):])
        for i, kx in enumerate(a.kwonlyargs):
            if kx.arg in kwargs:
                out[kx.arg] = kwargs.pop(kx.arg)
            else:
                out[kx.arg] = kwd[kx.arg]
        if a.kwarg is not None:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyExc('TypeError', f'{name}() unexpected keyword {sorted(kwargs)}')
        return out

    def call_closure(self, c, args, kwargs):
        node = c.node
        env = Env(c.env, c.name, c.gl)
        env.vars.update(self.bind_args(node, args, kwargs, c.defaults, c.kwdefaults, c.name))
        if isinstance(node, ast.Lambda):
            return self.in_frame(env, c.name, lambda: self.ev(node.body, env))
        if is_generator_node(node):
            def run(cb):
                env.vars['<yield>'] = cb

                def go():
                    try:
                        self.block(node.body, env)
                    except ReturnEx as r:
                        if r.env is not env:
                            raise
                self.in_frame(env, c.name, go)
            return GenObj(c, run, c.name)

        def go():
            try:
                self.block(node.body, env)
            except ReturnEx as r:
                if r.env is not env:
                    raise
                return r.v
            return None
        return self.in_frame(env, c.name, go)

    def in_frame(self, env, name, thunk):
        if self.calldepth > MAXDEPTH:
            raise Unsupported('recursion too deep')
        self.frames.append(env)
        self.func_stack.append(name)
        self.calldepth += 1
        n1, n2, sp = len(self.frames), len(self.func_stack), len(self.specs)
        try:
            return thunk()
        finally:
            del self.frames[n1 - 1:]
            del self.func_stack[n2 - 1:]
            del self.specs[sp:]
            self.calldepth -= 1

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, env)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Global(self, s, env):
        raise Unsupported('global statement')

    def s_Nonlocal(self, s, env):
        for n in s.names:
            env.nonlocals.add(n)

    def s_Import(self, s, env):
        for a in s.names:
            raise Unsupported('local import')

    s_ImportFrom = s_Import

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        if not self.truth(v):
            raise PyExc('AssertionError')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if isinstance(o, dict):
                    o.pop(self.ev(t.slice, env))
                elif isinstance(o, Arr) and o.items is not None:
                    i = self.ev(t.slice, env)
                    if is_sym(i):
                        raise Unsupported('del with symbolic index')
                    o.touch()
                    del o.items[i]
                    o.length = len(o.items)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            ds = []
            for d in s.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'wraps':
                    continue
                ds.append(self.ev(d, env))
        else:
            ds = []
        c = Closure(s, env, env.gl, s.name, [self.ev(d, env) for d in s.args.defaults],
                    {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in reversed(ds):
            c = self.call(d, [c])
        self.setname(s.name, c, env)

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else None
        raise ReturnEx(v, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise PyExc('RuntimeError', 're-raise')
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        v = self.ev(e, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v.__name__)
        raise PyExc('TypeError', 'exceptions must derive from BaseException')

    def s_Break(self, s, env):
        raise BreakEx(self.toks[id(env)][-1])

    def s_Continue(self, s, env):
        raise ContinueEx(self.toks[id(env)][-1])

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            v = self.ev(s.value, env)
            self.setname(t.id, self.inplace(op, cur, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                sl = self.slice(t.slice, env)
                cur = self.get_slice(o, sl)
                self.set_slice(o, sl, self.inplace(op, cur, self.ev(s.value, env)))
            else:
                i = self.ev(t.slice, env)
                cur = self.get_index(o, i)
                self.set_index(o, i, self.inplace(op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, cur, v):
        if isinstance(cur, Arr) and op == '+' and cur.kind in ('list', 'B'):
            if not isinstance(v, Arr):
                if cur.kind == 'list' and isinstance(v, (tuple, GenObj, RangeObj, SeqObj)):
                    v = self.to_list(v)
                else:
                    raise PyExc('TypeError', 'can only concatenate')
            if cur.kind == 'B' and v.kind != 'B':
                raise PyExc('TypeError', 'can only extend with array')
            self.extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                if not isinstance(o, Arr):
                    raise PyExc('TypeError', 'slice assignment')
                self.set_slice(o, self.slice(t.slice, env), v)
            else:
                self.set_index(o, self.ev(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            raise Unsupported('attribute assignment')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.seq_items(v, len(elts) if not star else None)
        if star:
            i = star[0]
            tail = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise PyExc('ValueError', 'not enough values to unpack')
            mid = self.mk('list', items=vals[i:len(vals) - tail])
            vals = vals[:i] + [mid] + vals[len(vals) - tail:]
        if len(vals) != len(elts):
            raise PyExc('ValueError', 'unpack length mismatch')
        for e, x in zip(elts, vals):
            self.assign(e, x, env)

    def seq_items(self, v, want=None):
        """concrete python list of elements"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.counts:
                raise Unsupported('the keys of a dictionary with symbolic keys')
            if v.items is not None:
                return list(v.items)
            if want is not None:
                eq = unlift(lift(v.length) == want)
                self.no_exc(eq, 'ValueError')
                return [v.view(i) for i in range(want)]
            ln = unlift(v.length)
            if not is_sym(ln):
                return [v.view(i) for i in range(ln)]
            raise Unsupported('symbolic-length sequence where concrete needed')
        if isinstance(v, (GenObj, RangeObj, SeqObj)):
            return list(self.to_list(v).items)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Opaque):
            if want is not None:
                return [Opaque(v.tag) for _ in range(want)]
            raise Unsupported('iteration over opaque value')
        if isinstance(v, (set, frozenset)):
            return sorted(v)
        if v is None or isinstance(v, (int, float)) or is_sym(v):
            raise PyExc('TypeError', 'not iterable')
        if hasattr(v, '__iter__'):
            return [self.wrap(x) for x in v]
        raise Unsupported(f'iterate {type(v).__name__}')

    def setname(self, n, v, env):
        if n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
            raise Unsupported('nonlocal')
        if self.pure_below >= 0 and n in env.vars and id(env) in self.outer_envs():
            raise NeedFork()
        env.vars[n] = v

    def outer_envs(self):
        return ()

    def simple_branch(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and all(self.simple_target(t) for t in s.targets) and self.simple_expr(s.value):
                continue
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and self.simple_expr(s.value):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            return False
        return True

    def simple_target(self, t):
        return isinstance(t, ast.Name) or isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts)

    def simple_expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.ListComp, ast.List,
                              ast.GeneratorExp, ast.Lambda, ast.Attribute, ast.Await)):
                return False
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Mod, ast.FloorDiv, ast.Pow)):
                return False
        return True

    def settled(self, c):
        """c, or true/false if the path condition decides it (quick test)"""
        if z3.is_true(c) or z3.is_false(c):
            return c
        self.solver.set('timeout', 300)
        try:
            if self.check(z3.Not(c)) == z3.unsat:
                return z3.BoolVal(True)
            if self.check(c) == z3.unsat:
                return z3.BoolVal(False)
        finally:
            self.solver.set('timeout', self.x.timeout_ms)
        return c

    def s_If(self, s, env):
        c = self.ev(s.test, env)
        if is_sym(c) and self.simple_branch(s.body) and self.simple_branch(s.orelse):
            # merge: both branches only assign numeric locals
            c = liftb(c)
            sc = self.settled(z3.simplify(c))
            if z3.is_true(sc) or z3.is_false(sc):
                c = unlift(sc)
            else:
                base = dict(env.vars)
                try:
                    outs = []
                    for cc, body in ((c, s.body), (z3.Not(c), s.orelse)):
                        env.vars = dict(base)
                        self.push()
                        try:
                            self.solver.add(cc)
                            self.block(body, env)
                        finally:
                            self.pop()
                        outs.append(env.vars)
                    a, b = outs
                    if set(a) == set(b):
                        env.vars = dict(base)
                        for n in a:
                            env.vars[n] = a[n] if a[n] is b[n] else merge_val(c, a[n], b[n])
                        return
                    env.vars = base
                except NeedFork:
                    env.vars = base
                except PyExc:
                    env.vars = base
        if self.truth(c):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Try(self, s, env):
        try:
            self.trydepth += 1
            try:
                self.block(s.body, env)
            finally:
                self.trydepth -= 1
        except PyExc as e:
            for h in s.handlers:
                if self.exc_matches(h, e, env):
                    if h.name:
                        env.vars[h.name] = Opaque('exc')
                    self.block(h.body, env)
                    break
            else:
                self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def exc_matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.ev(t, env)
            nm = getattr(v, '__name__', '')
            if nm in ('Exception', 'BaseException', e.tname) or nm in EXC_PARENTS.get(e.tname, ()):
                return True
        return False

    def s_With(self, s, env):
        objs = []
        for it in s.items:
            o = self.ev(it.context_expr, env)
            if not isinstance(o, FileObj):
                raise Unsupported('with on a non-file')
            objs.append(o)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, o, env)
        try:
            self.block(s.body, env)
        finally:
            for o in objs:
                o.closed = True

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        tok = object()
        self.toks.setdefault(id(env), []).append(tok)
        try:
            broke = self.iterate(s, self.ev(s.iter, env), env, tok)
        finally:
            self.toks[id(env)].remove(tok)
        if not broke:
            self.block(s.orelse, env)

    def body_once(self, s, env, tok, v):
        self.assign(s.target, v, env)
        try:
            self.block(s.body, env)
        except ContinueEx as c:
            if c.tok is not tok:
                raise

    def iterate(self, s, it, env, tok):
        try:
            if isinstance(it, GenObj):
                self.run_gen(it, lambda v: self.gen_body(s, env, tok, v))
                return False
            n, get, dyn = self.to_seq(it)
            force = self.ghost.get('force_for')
            if force and not is_sym(n) and force(self, s, n):
                n = z3.IntVal(n)
            if not is_sym(n):
                i = 0
                while i < (it.length if dyn else n):
                    if i > UNROLL:
                        raise Unsupported('loop too long to unroll')
                    self.body_once(s, env, tok, get(i))
                    i += 1
                    if dyn and it.items is None:
                        raise Unsupported('iterated sequence changed representation')
                return False
            u = self.x.unroll_limit(self, s)
            if u:
                nn = self.small_values(n, 0, u)
                for i in range(nn):
                    self.body_once(s, env, tok, get(i))
                return False

            def bind(k):
                self.assign(s.target, get(k), env)
            self.sym_loop(s, 'for', n, bind, lambda: self.loop_body(s, env, tok), None, env)
            return False
        except BreakEx as b:
            if b.tok is not tok:
                raise
            return True

    def gen_body(self, s, env, tok, v):
        self.body_once(s, env, tok, v)

    def loop_body(self, s, env, tok):
        try:
            self.block(s.body, env)
        except ContinueEx as c:
            if c.tok is not tok:
                raise

    def run_gen(self, g, cb):
        if g.used:
            raise Unsupported('generator consumed twice')
        g.used = True
        g.run(cb)

    def to_seq(self, it):
        """-> (length, getter, dynamic?)"""
        if isinstance(it, RangeObj):
            n = self.range_len(it)
            return n, (lambda i: unlift(lift(it.a) + lift(self.mul(i, it.s)))
                       if is_sym(it.a) or is_sym(it.s) or is_sym(i) else it.a + i * it.s), False
        if isinstance(it, SeqObj):
            return it.n, it.get, False
        if isinstance(it, Arr):
            if it.counts:
                raise Unsupported('iteration over a dictionary with symbolic keys')
            if it.items is not None:
                return it.length, (lambda i: it.items[i]), True
            v = it.snapshot()
            ver = it.ver

            def get(i):
                return it.view(i)
            n = unlift(it.length)
            return n, get, False
        vals = self.seq_items(it)
        return len(vals), (lambda i: vals[i]), False

    def range_len(self, r):
        if not is_sym(r.a) and not is_sym(r.b) and not is_sym(r.s):
            return len(range(r.a, r.b, r.s))
        a, b = lift(r.a), lift(r.b)
        if is_sym(r.s):
            if not self.valid(r.s > 0):
                if self.valid(r.s < 0):
                    raise Unsupported('symbolic negative step')
                self.no_exc(lift(r.s) > 0, 'ValueError (range step)')
            if not self.decide(a < b):
                return 0
            q = self.fresh('rcnt')
            st = r.s
            d, c = linform(st)
            if len(d) == 1 and c == 0 and list(d.values())[0][1] == 1:
                self.add_stride(list(d.values())[0][0])
            Q = lift(self.mul(q, st))
            self.fact(z3.And(q >= 1, Q - st < b - a, b - a <= Q))
            return q
        if r.s > 0:
            if not self.decide(a < b):
                return 0
            if r.s == 1:
                return unlift(b - a)
            return unlift((b - a + (r.s - 1)) / r.s)
        if not self.decide(a > b):
            return 0
        if r.s == -1:
            return unlift(a - b)
        return unlift((a - b + (-r.s - 1)) / (-r.s))

    def s_While(self, s, env):
        tok = object()
        self.toks.setdefault(id(env), []).append(tok)
        broke = False
        try:
            cnt = 0
            force = self.ghost.get('force_loop')
            while not (force and force(self, s)):
                c = self.ev(s.test, env)
                if isinstance(c, Arr):
                    c = unlift(lift(c.length) > 0)
                if is_sym(c):
                    sc = unlift(liftb(c))
                    if is_sym(sc):
                        u = self.x.unroll_limit(self, s)
                        if not u:
                            break
                        if cnt > u:
                            raise Unsupported('unroll limit exceeded')
                        sc = self.decide(sc)
                    c = sc
                if not (c if not isinstance(c, Opaque) else self.truth(c)):
                    raise _LoopDone()
                cnt += 1
                if cnt > 20000:
                    raise Unsupported('while loop too long to unroll')
                self.loop_body(s, env, tok)
            self.sym_loop(s, 'while', None, None, lambda: self.loop_body(s, env, tok), lambda: self.ev(s.test, env), env)
        except _LoopDone:
            pass
        except BreakEx as b:
            if b.tok is not tok:
                raise
            broke = True
        finally:
            self.toks[id(env)].remove(tok)
        if not broke:
            self.block(s.orelse, env)

    def sym_iter(self, key, elem, cb, n=None):
        """iterate a callback over an unknown sequence whose k-th element is elem(k) (facts assumed there)"""
        n = n if n is not None else self.fresh('niter')
        self.fact(n >= 0)
        self.sym_loop(key, 'iter', n, None, None, None, None, elem=elem, cb=cb)

    # -- static seeding of the modified locals
    def assigned_names(self, node):
        out = {}

        def tgt(t, guess=None):
            if isinstance(t, ast.Name):
                out[t.id] = None if t.id in out else guess
                if guess is None:
                    out[t.id] = None
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    tgt(e)
            elif isinstance(t, ast.Starred):
                tgt(t.value)

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                if isinstance(n, ast.FunctionDef):
                    out[n.name] = None
                return
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    nm = n.target.id
                    if nm in out:
                        out[nm] = None
                    else:
                        out[nm] = (type(n.op), n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            for c in ast.iter_child_nodes(n):
                walk(c)
        for b in node.body:
            walk(b)
        if isinstance(node, ast.For):
            tgt(node.target)
        if isinstance(node, ast.While):
            walk(node.test)
        return out

    def new_since(self, t, counters):
        """does the term mention constants created after the counters snapshot?"""
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = self.mono_of.get(x.get_id())
                if m:
                    stack.extend(m)
                    continue
                nm = x.decl().name()
                if '!' in nm:
                    h, n = nm.rsplit('!', 1)
                    if n.isdigit() and int(n) >= counters.get(h, 0):
                        return True
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                nm = x.decl().name()
                if '!' in nm:
                    h, n = nm.rsplit('!', 1)
                    if n.isdigit() and int(n) >= counters.get(h, 0):
                        return True
            stack.extend(x.children())
        return False

    def sym_loop(self, node, kind, n, bind, body, cond, env, elem=None, cb=None):
        if self.pure_below >= 0:
            raise NeedFork()
        log = self.logs[0]
        nid = node if isinstance(node, (str, tuple)) else ('n', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        key = (tuple(self.func_stack), nid, self.loop_no, tuple(log.taken))
        info = self.x.loopinfo.get(key)
        if info is None:
            info = self.x.loopinfo[key] = LoopInfo()
        L = Loop(self, kind, node)
        L.n = n
        self.loop_no += 1
        frames = list(self.frames)
        if not info.seeded:
            info.seeded = True
            if env is not None and env in frames and not isinstance(node, (str, tuple)):
                fi = frames.index(env)
                names = self.assigned_names(node)
                for nm, g in names.items():
                    if nm in env.nonlocals:
                        continue
                    d = None
                    if g is not None and nm in env.vars:
                        opt, ve = g
                        if opt in (ast.Add, ast.Sub):
                            if isinstance(ve, ast.Constant) and isinstance(ve.value, int):
                                d = ve.value
                            elif isinstance(ve, ast.Name) and ve.id not in names:
                                dv = self.ev(ve, env)
                                if isinstance(dv, int) or is_symint(dv):
                                    d = dv
                            if d is not None and opt is ast.Sub:
                                d = unlift(-lift(d)) if is_sym(d) else -d
                    v0 = env.vars.get(nm)
                    if isinstance(v0, Arr):
                        continue    # += changes the list itself; another assignment shows at the end of the round
                    isint = isinstance(v0, int) and not isinstance(v0, bool) or is_symint(v0)
                    info.locals[(fi, nm)] = ('ind', d) if d is not None and isint else 'fresh'
        spec = self.x.loopspec(self, L) or LoopSpec()
        for nm in spec.complex_locals(L) if hasattr(spec, 'complex_locals') else ():
            kk = (len(frames) - 1, nm)
            info.cplx.add(kk)
            info.locals[kk] = 'fresh'
            info.noind.add(kk)
        # ---- entry state
        counters0 = dict(self.counters)
        snap_vars = [dict(f.vars) for f in frames]
        snap_ver = {o: a.ver for o, a in self.objs.items()}
        snap_len = {o: a.length for o, a in self.objs.items()}
        snap_items = {}
        max_oid = self.oids
        for o in info.objs:
            a = self.objs[o]
            L._entry[o] = (a.snapshot(), a.length, list(a.items) if a.items is not None else None)
        self.loops.append(L)
        nloops = len(self.loops)
        try:
            # ---- initiation
            L.k = 0
            for i, c in enumerate(spec.inv(L, 0)):
                self.prove(c, f'loop {L.ordinal} invariant {i} holds initially', 'inv-init')
            for o in info.objs:
                a = self.objs[o]
                asp = spec.arr(L, a, 0)
                if asp is not None:
                    self.check_arrspec(a, asp, f'loop {L.ordinal} invariant (contents) holds initially', 'inv-init')
            # ---- havoc
            k = self.fresh('k')
            L.k = k
            self.fact(k >= 0)
            ndef = None
            if n is not None:
                self.fact(k <= n)
            if hasattr(spec, 'split'):
                k = L.k = spec.split(L, k)      # case split on the round
            indvars = {}
            for (fi, nm), how in info.locals.items():
                if fi >= len(frames):
                    raise Unsupported('loop frame mismatch')
                e = frames[fi]
                if nm not in e.vars:
                    continue
                v0 = e.vars[nm]
                if how != 'fresh' and how[0] == 'ind':
                    e.vars[nm] = unlift(lift(v0) + lift(self.mul(k, how[1])))
                    indvars[(fi, nm)] = (v0, how[1])
                else:
                    e.vars[nm] = self.havoc(0.0 if (fi, nm) in info.real else 0j if (fi, nm) in info.cplx else v0, nm)
            for o, how in info.objs.items():
                self.havoc_arr(self.objs[o], how, spec, L, k)
            for c in spec.inv(L, k):
                self.assume(c)
            if hasattr(spec, 'fix'):
                spec.fix(L, k)
            if cond is not None and is_sym(k):
                self.prev_cond(cond, k, indvars, info, frames)
            # ---- one more iteration?
            if n is not None:
                more = self.decide(k < lift(n))
            else:
                c = cond()
                more = self.truth(c)
            if more:
                head_vals = {kk: frames[kk[0]].vars.get(kk[1]) for kk in info.locals}
                head_len = {o: self.objs[o].length for o in self.objs}
                head_vars = [dict(f.vars) for f in frames]
                head_ver = {o: a.ver for o, a in self.objs.items()}
                counters1 = counters0
                if elem is not None:
                    cb(elem(k))
                else:
                    if bind is not None:
                        bind(k)
                    body()
                self.loop_end(info, key, L, spec, k, frames, head_vars, head_vals, head_ver, head_len, snap_vars, counters0, max_oid)
                raise PathEnd()
            if n is not None:
                self.assume(k == lift(n))
                # induction variables in closed form at exit
                for (fi, nm), (v0, d) in indvars.items():
                    frames[fi].vars[nm] = unlift(lift(v0) + lift(self.mul(n, d)))
            fin = getattr(spec, 'at_exit', None)
            if fin is not None:
                fin(L, k)
        finally:
            del self.loops[nloops - 1:]

    def havoc(self, v0, nm):
        if isinstance(v0, bool) or is_symbool(v0):
            return self.fresh_bool(nm)
        if isinstance(v0, int) or is_symint(v0):
            return self.fresh(nm)
        if isinstance(v0, float) or is_symreal(v0):
            return self.fresh_real(nm)
        if isinstance(v0, (cx.Cx, complex)):
            return cx.Cx(self.fresh_real(nm + '_re'), self.fresh_real(nm + '_im'))
        if isinstance(v0, tuple):
            return tuple(self.havoc(x, nm) for x in v0)
        return Poison(f'{nm} is modified by a loop and has no specification')

    def havoc_arr(self, a, how, spec, L, k):
        asp = spec.arr(L, a, k)
        self.havoc_contents(a, how, asp, L, k)
        if asp is not None and asp.member is not None:
            a.member = asp.member

    def havoc_contents(self, a, how, asp, L, k):
        a.touch()
        entry_items = L._entry[a.oid][2]
        if how == 'same':
            ln = L.entry_len(a)
        elif how == 'free':
            ln = asp.length if asp is not None and asp.length is not None else None
            if ln is None:
                ln = self.fresh('len')
                self.fact(ln >= 0)
        else:
            ln = unlift(lift(L.entry_len(a)) + lift(self.mul(k, how[1])))
        if asp is not None and asp.length is not None:
            ln = asp.length
        if asp is not None and asp.view is not None:
            a.set_view(asp.view, ln)
            return
        if asp is None and entry_items is not None and how == 'same' and a.kind == 'list':
            a.items = [self.havoc(x, 'el') for x in entry_items]
            a.length = len(a.items)
            return
        if a.kind == 'list' and (asp is None or asp.member is not None):
            def bad(j):
                raise Unsupported('contents of a list modified by a loop have no specification')
            a.set_view(bad, ln)
            return
        f = self.fresh_fun('hv')
        isB = a.kind in ('B', 'bytes')
        below = asp.below if asp is not None else 0
        entry = L.entry(a)

        def view(j, f=f, asp=asp):
            if below and not is_sym(j) and j < below:
                return entry(j)
            t = f(lift(j))
            key = ('hv', f.name(), lift(j).get_id())
            if key not in self.fact_keys:
                self.fact_keys[key] = (t, j)
                if isB:
                    self.fact(z3.And(t >= 0, t <= 255))
                if below:
                    self.fact(z3.Implies(lift(j) < below, t == lift(entry(j))))
                if asp is not None and asp.rel is not None:
                    r = asp.rel(j, t)
                    if r is not True:
                        self.fact(r)
            return t
        a.set_view(view, ln)

    def skolems(self, a):
        """regions of an array to check a pointwise statement on: (label, index, assumptions)"""
        b = a.bmp
        if b is not None:
            j = self.fresh('jh')
            row, col = self.fresh('jr'), self.fresh('jc')
            self.register_mult(b.R, row)
            jp = unlift(lift(b.hdr) + lift(self.mul(row, b.R)) + col)
            key = ('rc', b.uid, lift(jp).get_id())
            self.rc_memo[key] = (row, col, jp)
            return [('header', j, z3.And(j >= 0, j < b.hdr)),
                    ('pixels', jp, z3.And(row >= 0, row < b.h, col >= 0, col < b.R))]
        j = self.fresh('j')
        return [('all', j, z3.And(j >= 0, j < lift(a.length)))]

    def check_arrspec(self, a, asp, name, kind):
        if asp.length is not None:
            self.prove(lift(a.length) == lift(asp.length), name + ' [length]', kind)
        if self.logs[0].replaying:
            return
        if asp.member is not None:
            v = self.fresh('elem')
            self.prove(liftb(self.contains(v, a)) == liftb(asp.member(v)), name + ' [elements]', kind)
            return
        if a.items is not None and not a.items:
            return      # no element to speak of
        for i in range(asp.prefix):
            self.prove(self.goal_eq(a.view(i), asp.view(i)), f'{name} [{i}]', kind)
        for lab, j, cnd in self.skolems(a):
            self.push()
            try:
                self.solver.add(cnd)
                if asp.prefix:
                    self.solver.add(j >= asp.prefix)
                    if not self.feasible(z3.BoolVal(True)):
                        continue
                cur = a.view(j)
                if asp.below:
                    self.prove(z3.Implies(lift(j) < asp.below, lift(cur) == lift(self.loops[-1].entry(a)(j))), f'{name} [below {asp.below}, {lab}]', kind)
                if asp.view is not None:
                    want = asp.view(j)
                    if lab == 'pixels' and a.bmp.bits == 1 and self.ghost.get('bituf') and is_sym(cur) and is_sym(want):
                        from .bitmap import bits8
                        for i, (u, v) in enumerate(zip(bits8(self, cur), bits8(self, want))):
                            self.prove(lift(u) == lift(v), f'{name} [{lab}, bit {i}]', kind)
                    g = self.goal_eq(cur, want)
                elif asp.rel is not None:
                    g = asp.rel(j, cur)
                elif asp.below:
                    continue
                else:
                    g = True
                self.prove(g, f'{name} [{lab}]', kind)
            except PathEnd:
                pass
            finally:
                self.pop()

    def goal_eq(self, a, b):
        """equality as something to prove (sequences: at an arbitrary position)"""
        if isinstance(a, Arr) and isinstance(b, Arr) and (a.items is None or b.items is None or any(isinstance(x, Arr) for x in a.items + b.items)):
            if a.items is not None and b.items is not None:
                return and_(*[self.goal_eq(x, y) for x, y in zip(a.items, b.items)]) if len(a.items) == len(b.items) else False
            if (a.kind == 'list') != (b.kind == 'list'):
                return False
            i = self.fresh('i')
            return and_(lift(a.length) == lift(b.length), z3.Implies(z3.And(i >= 0, i < lift(b.length)), liftb(self.goal_eq(a.view(i), b.view(i)))))
        return self.eq_val(a, b)

    def eq_val(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return and_(*[self.eq_val(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.arr_eq(a, b)
        return self.compare('==', a, b)

    def loop_end(self, info, key, L, spec, k, frames, head_vars, head_vals, head_ver, head_len, snap_vars, counters0, max_oid):
        changed = False
        # locals
        for fi, f in enumerate(frames):
            hv = head_vars[fi]
            for nm, v in f.vars.items():
                if nm == '<yield>':
                    continue
                kk = (fi, nm)
                if nm not in hv:
                    continue
                if kk in info.locals:
                    continue
                if not same_val(v, hv[nm]):
                    info.locals[kk] = 'fresh'
                    changed = True
        for o, v in head_ver.items():
            a = self.objs[o]
            if o in info.objs or o > max_oid:
                continue
            if a.ver != v:
                info.objs[o] = 'same'
                changed = True
        if changed:
            raise Restart()
        # induction variables
        for (fi, nm), how in list(info.locals.items()):
            e = frames[fi]
            if nm not in snap_vars[fi]:
                continue
            v1 = e.vars.get(nm)
            h = head_vals[(fi, nm)]
            if how != 'fresh' and how[0] == 'ind':
                if not (isinstance(v1, int) or is_symint(v1)) or not self.valid(lift(v1) == lift(h) + lift(how[1])):
                    info.locals[(fi, nm)] = 'fresh'
                    info.noind.add((fi, nm))
                    raise Restart()
            elif (fi, nm) not in info.noind:
                if is_symint(h) and (isinstance(v1, int) or is_symint(v1)):
                    d = unlift(lift(v1) - h)
                    if not is_sym(d) or not self.new_since(d, counters0):
                        info.locals[(fi, nm)] = ('ind', d)
                        raise Restart()
                    # takes the value another induction variable had: follows it one step behind
                    for (fj, om), oh in info.locals.items():
                        if fj == fi and om != nm and oh != 'fresh' and oh[0] == 'ind' and same_val(v1, head_vals[(fj, om)]):
                            info.locals[(fi, nm)] = ('ind', oh[1])
                            raise Restart()
            self.check_type(snap_vars[fi][nm], v1, h, nm, info, (fi, nm))
        for o, how in list(info.objs.items()):
            a = self.objs[o]
            asp = spec.arr(L, a, unlift(k + 1))
            if asp is not None and asp.length is not None:
                continue
            d = unlift(lift(a.length) - lift(head_len[o]))
            if how == 'same':
                if is_sym(d) and self.valid(d == 0):
                    d = 0
                if is_sym(d) or d != 0:
                    if a.kind != 'list' and a.bmp is not None:
                        self.prove(d == 0 if is_sym(d) else False, f'loop {L.ordinal} keeps the bitmap length', 'frame')
                        continue
                    info.objs[o] = ('ind', d) if not is_sym(d) or not self.new_since(d, counters0) else 'free'
                    raise Restart()
            elif how != 'free':
                if not self.valid(lift(d) == lift(how[1])):
                    info.objs[o] = 'free'
                    raise Restart()
        # ---- preservation
        k1 = unlift(k + 1)
        for i, c in enumerate(spec.inv(L, k1)):
            self.prove(c, f'loop {L.ordinal} invariant {i} preserved', 'inv-step')
        for o in info.objs:
            a = self.objs[o]
            asp = spec.arr(L, a, k1)
            if asp is not None:
                self.check_arrspec(a, asp, f'loop {L.ordinal} invariant (contents) preserved', 'inv-step')

    def check_type(self, v0, v1, h, nm, info=None, kk=None):
        if isinstance(h, Poison):
            return
        def cls(v):
            if isinstance(v, bool) or is_symbool(v):
                return 'b'
            if isinstance(v, int) or is_symint(v):
                return 'i'
            if isinstance(v, float) or is_symreal(v):
                return 'r'
            if isinstance(v, (cx.Cx, complex)):
                return 'c'
            if isinstance(v, tuple):
                return tuple(cls(x) for x in v)
            return type(v).__name__
        if cls(h) in 'ir' and cls(v1) == 'c' and info is not None and kk not in info.cplx:
            info.cplx.add(kk)
            info.locals[kk] = 'fresh'
            info.noind.add(kk)
            raise Restart()
        if cls(h) == 'i' and cls(v1) == 'r' and info is not None and kk not in info.real:
            info.real.add(kk)
            info.locals[kk] = 'fresh'
            info.noind.add(kk)
            raise Restart()
        if cls(h) != cls(v1) and not (info is not None and kk in info.real and cls(v1) == 'i'):
            raise Unsupported(f'type of loop variable changes: {nm} {cls(h)} -> {cls(v1)}')

    def prev_cond(self, cond, k, indvars, info, frames):
        """k >= 1 -> the loop condition held at k-1 (when it only depends on induction variables)"""
        saved = {}
        for (fi, nm) in info.locals:
            if nm in frames[fi].vars:
                saved[(fi, nm)] = frames[fi].vars[nm]
                if (fi, nm) in indvars:
                    v0, d = indvars[(fi, nm)]
                    frames[fi].vars[nm] = unlift(lift(v0) + lift(self.mul(unlift(k - 1), d)))
                else:
                    frames[fi].vars[nm] = Poison('previous iteration')
        try:
            self.quiet += 1
            try:
                c = self.merge_eval(cond)
                if is_sym(c):
                    self.fact(z3.Implies(k >= 1, liftb(c)))
                elif not c:
                    self.fact(k < 1)
            except (NeedFork, Unsupported, PyExc, PathEnd):
                pass
        finally:
            self.quiet -= 1
            for (fi, nm), v in saved.items():
                frames[fi].vars[nm] = v

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, env)

    def e_unsupported(self, e, env):
        raise Unsupported(f'expression {type(e).__name__}')

    def e_Constant(self, e, env):
        v = e.value
        return self.wrap(v) if isinstance(v, bytes) else v

    def name(self, n, env):
        e, v = env.lookup(n)
        if e is None:
            gl = env.gl
            if n in gl:
                v = gl[n]
                if isinstance(v, (list, bytes, bytearray, _array)):
                    r = self.wrap(v)
                    return r
                return self.wrap(v)
            if hasattr(builtins, n):
                return getattr(builtins, n)
            raise PyExc('NameError', n)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.seq_items(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.mk('list', items=self.elts(e.elts, env))

    def e_Set(self, e, env):
        its = self.elts(e.elts, env)
        if any(is_sym(i) for i in its):
            raise Unsupported('symbolic set')
        return set(its)

    def e_Dict(self, e, env):
        if self.ghost.get('countdict') and not e.keys:
            d = self.mk('dict', length=1 << 32, view=lambda j: 0)
            d.counts = True
            return d
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                kk = self.ev(k, env)
                if is_sym(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v, env)
        self.new_dicts.add(id(d))
        self.keep.append(d)
        return d

    def e_Lambda(self, e, env):
        return Closure(e, env, env.gl, '<lambda>', [self.ev(d, env) for d in e.args.defaults], {})

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        if self.pure_below >= 0:
            raise NeedFork()
        self.assign(e.target, v, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if is_sym(v):
                return unlift(z3.Not(liftb(v)))
            if isinstance(v, Arr):
                return unlift(lift(v.length) == 0) if is_sym(v.length) else v.length == 0
            if isinstance(v, Opaque):
                return self.fresh_bool('opq')
            return not v
        if isinstance(v, Opaque):
            return v
        if isinstance(v, cx.Cx):
            return cx.binop(self, '-', 0, v) if isinstance(e.op, ast.USub) else v
        if not is_sym(v):
            if isinstance(v, (Arr, str, tuple)) or v is None:
                raise PyExc('TypeError', 'bad operand')
            return {ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(e.op)]()
        v = lift(v)
        if isinstance(e.op, ast.USub):
            return unlift(-v)
        if isinstance(e.op, ast.UAdd):
            return v
        return unlift(-v - 1)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('havocked value')
        return self.binop(OPS[type(e.op)], a, b)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        vals = e.values

        def go(i):
            v = self.ev(vals[i], env)
            if i == len(vals) - 1:
                return v
            if is_sym(v):
                c = liftb(v)
                s = unlift(c)
                if not is_sym(s):
                    if s == isand:
                        return go(i + 1)
                    return v
                if is_symbool(v):
                    try:
                        r = self.merge_eval(lambda: go(i + 1), c if isand else z3.Not(c))
                        if is_symbool(r) or isinstance(r, bool):
                            return unlift(liftb(and_(c, r) if isand else or_(c, r)))
                    except NeedFork:
                        pass
                    except PathEnd:
                        return not isand
                if self.decide(c) == isand:
                    return go(i + 1)
                return v if not is_symbool(v) else (not isand)
            t = self.truth(v)
            if t == isand:
                return go(i + 1)
            return v
        return go(0)

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        if is_sym(c):
            c = liftb(c)
            s = unlift(self.settled(z3.simplify(c)))
            if not is_sym(s):
                c = s
            else:
                try:
                    try:
                        a = self.merge_eval(lambda: self.ev(e.body, env), c)
                    except PathEnd:
                        return self.ev(e.orelse, env)
                    try:
                        b = self.merge_eval(lambda: self.ev(e.orelse, env), z3.Not(c))
                    except PathEnd:
                        return a
                    return merge_val(c, a, b)
                except NeedFork:
                    pass
        if self.truth(c):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for op, right in zip(e.ops, e.comparators):
            r = self.ev(right, env)
            if isinstance(left, Poison) or isinstance(r, Poison):
                raise Unsupported('havocked value')
            c = self.compare(CMPS[type(op)], left, r)
            res = and_(res, c) if is_sym(c) or is_sym(res) else (res and c)
            if res is False:
                return False
            left = r
        return res

    def slice(self, s, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return (g(s.lower), g(s.upper), g(s.step))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if isinstance(o, Opaque):
                return Opaque('slice')
            if not isinstance(o, (Arr, str, tuple)):
                raise PyExc('TypeError', 'not subscriptable')
            sl = self.slice(e.slice, env)
            if sl[2] is not None and not is_sym(sl[2]) and sl[2] < 0 and isinstance(o, Arr):
                if sl == (None, None, -1):
                    return self.reversed_copy(o)
            return self.get_slice(o, sl)
        i = self.ev(e.slice, env)
        if isinstance(o, (int, float)) or o is None or is_sym(o):
            raise PyExc('TypeError', 'not subscriptable')
        return self.get_index(o, i)

    def reversed_copy(self, a):
        if a.items is not None:
            return self.mk(a.kind, items=a.items[::-1])
        v, n = a.snapshot(), a.length
        return self.mk(a.kind, length=n, view=lambda j: v(unlift(lift(n) - 1 - lift(j))))

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        if is_sym(o) and e.attr in ('real', 'imag'):
            return o if e.attr == 'real' else 0
        if isinstance(o, (Arr, GenObj, Opaque, FileObj)) or is_sym(o):
            return BoundMethod(o, e.attr)
        if isinstance(o, types.ModuleType):
            return self.wrap(getattr(o, e.attr))
        if isinstance(o, cx.Cx):
            return o.re if e.attr == 'real' else o.im if e.attr == 'imag' else BoundMethod(o, e.attr)
        if isinstance(o, (int, float, complex)) and e.attr in ('real', 'imag'):
            return getattr(o, e.attr)
        if isinstance(o, (str, dict, tuple, int, float, complex, set)):
            return BoundMethod(o, e.attr)
        if isinstance(o, (types.FunctionType, Closure, UFunc)) and e.attr == '__name__':
            return o.__name__
        if isinstance(o, type):
            return getattr(o, e.attr)
        raise Unsupported(f'attribute {e.attr} on {type(o).__name__}')

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                if is_sym(x) or isinstance(x, (Opaque, Arr)):
                    return Opaque('str')
                out += format(x, '') if v.conversion == -1 else str(x)
        return out

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            # printing is dropped; arguments may still fail, evaluate them
            for a in e.args:
                if not isinstance(a, ast.Starred):
                    self.ev(a, env)
            return None
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.seq_items(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        ge, cb = env.lookup('<yield>')
        if cb is None:
            raise Unsupported('yield outside generator')
        cb(v)
        return None

    def e_YieldFrom(self, e, env):
        it = self.ev(e.value, env)
        ge, cb = env.lookup('<yield>')
        self.for_each(it, cb, e)
        return None

    def for_each(self, it, cb, node):
        if isinstance(it, GenObj):
            self.run_gen(it, cb)
            return
        n, get, dyn = self.to_seq(it)
        if not is_sym(n):
            for i in range(n):
                cb(get(i))
            return
        self.sym_loop(('each', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), 'iter', n, None, None, None, None,
                      elem=get, cb=cb)

    # comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_DictComp(self, e, env):
        out = {}
        sub = Env(env, '<comp>')

        def rec(i):
            if i == len(e.generators):
                k = self.ev(e.key, sub)
                if is_sym(k):
                    raise Unsupported('symbolic dict key')
                out[k] = self.ev(e.value, sub)
                return
            g = e.generators[i]
            for v in self.seq_items(self.ev(g.iter, sub)):
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    rec(i + 1)
        rec(0)
        self.new_dicts.add(id(out))
        self.keep.append(out)
        return out

    def freeze_env(self, env):
        if env is None:
            return None
        n = Env(self.freeze_env(env.parent), env.name, env.gl)
        for k, v in env.vars.items():
            n.vars[k] = self.copy_frozen(v)
        return n

    def copy_frozen(self, v):
        if isinstance(v, Arr):
            r = Arr(v.kind, length=v.length, view=None if v.items is not None else v.snapshot(),
                    items=list(v.items) if v.items is not None else None)
            r.bmp = v.bmp
            r.frozen = True
            r.ctx = None
            return r
        return v

    def comp(self, e, env):
        out = []
        sub = Env(env, '<comp>')
        gens = e.generators

        def rec(i):
            if i == len(gens):
                out.append(self.ev(e.elt, sub))
                return
            g = gens[i]
            it = self.ev(g.iter, sub)

            def one(v):
                self.assign(g.target, v, sub)
                for c in g.ifs:
                    if not self.truth(self.ev(c, sub)):
                        return
                rec(i + 1)
            if isinstance(it, GenObj):
                nl = self.loop_no
                self.run_gen(it, one)
                if self.loop_no != nl:
                    raise Unsupported('comprehension over a generator with a symbolic loop')
                return
            n, get, dyn = self.to_seq(it)
            if is_sym(n):
                if i == 0 and not any(h.ifs for h in gens) and len(gens) <= 2:
                    raise _SymMap(n, get, it)
                raise Unsupported('filtered or nested comprehension over a symbolic sequence')
            for j in range(n):
                one(get(j))
        try:
            rec(0)
        except _SymMap as m:
            if len(gens) == 2:
                return self.sym_flat(e.elt, gens, m.n, m.get, m.it, env)
            return self.sym_map(e.elt, gens[0].target, m.n, m.get, m.it, env)
        return self.mk('list', items=out)

    def sym_map(self, elt, target, n, get, it, env):
        fe = self.freeze_env(env)
        if isinstance(it, Arr):
            get = it.snapshot()
        oldstack = list(self.func_stack)

        def compute(j):
            sub = Env(fe, '<comp>')
            self.assign(target, get(j), sub)
            return self.ev(elt, sub)
        # safety obligations once, for an arbitrary index
        if not self.quiet:
            j0 = self.fresh('jm')
            self.push()
            try:
                self.solver.add(j0 >= 0, j0 < lift(n))
                self.merge_eval(lambda: compute(j0))
            except NeedFork:
                raise Unsupported('element expression of a symbolic comprehension does not merge')
            except PathEnd:
                pass
            finally:
                self.pop()

        def view(j):
            self.quiet += 1
            sf = self.func_stack
            self.func_stack = list(oldstack)
            try:
                return self.merge_eval(lambda: compute(j))
            except NeedFork:
                raise Unsupported('element expression of a symbolic comprehension does not merge')
            finally:
                self.quiet -= 1
                self.func_stack = sf
        return self.mk('list', length=n, view=view)

    def sym_flat(self, elt, gens, n, get, it, env):
        """[elt for v in seq for w in part(v)] where every part has the same, known number of elements"""
        rows = self.sym_map(gens[1].iter, gens[0].target, n, get, it, env)
        fe = self.freeze_env(env)
        oldstack = list(self.func_stack)

        def parts(row):
            c, g, _ = self.to_seq(row)
            if is_sym(c):
                raise Unsupported('nested comprehension with inner sequences of unknown length')
            return c, g
        j0 = self.fresh('jf')
        self.push()
        self.quiet += 1
        try:
            self.solver.add(j0 >= 0, j0 < lift(n))
            c = parts(rows.view(j0))[0]
        finally:
            self.quiet -= 1
            self.pop()

        def compute(j, k):
            sub = Env(fe, '<comp>')
            self.assign(gens[0].target, get(j), sub)
            cc, g = parts(rows.view(j))
            if cc != c:
                raise Unsupported('nested comprehension with inner sequences of different lengths')
            self.assign(gens[1].target, g(k), sub)
            return self.ev(elt, sub)

        if not self.quiet:
            j0 = self.fresh('jf')
            self.push()
            try:
                self.solver.add(j0 >= 0, j0 < lift(n))
                for k in range(c):
                    self.merge_eval(lambda: compute(j0, k))
            except NeedFork:
                raise Unsupported('element expression of a nested comprehension does not merge')
            except PathEnd:
                pass
            finally:
                self.pop()

        def view(j):
            if c == 0:
                return 0
            self.quiet += 1
            sf = self.func_stack
            self.func_stack = list(oldstack)
            try:
                q, m = self.divmod_c(j, c)
                if not is_sym(m):
                    return self.merge_eval(lambda: compute(q, m))
                r = self.merge_eval(lambda: compute(q, c - 1))
                for k in range(c - 2, -1, -1):
                    r = merge_val(unlift(lift(m) == k), self.merge_eval(lambda: compute(q, k)), r)
                return r
            except NeedFork:
                raise Unsupported('element expression of a nested comprehension does not merge')
            finally:
                self.quiet -= 1
                self.func_stack = sf
        return self.mk('list', length=self.mul(n, c), view=view)

    def to_list(self, v, kind='list'):
        if isinstance(v, Arr):
            return self.copy(v, kind)
        if isinstance(v, GenObj):
            out = self.mk(kind, items=[])
            self.run_gen(v, lambda x: self.am_append(out, x))
            return out
        if isinstance(v, (RangeObj, SeqObj)):
            n, get, _ = self.to_seq(v)
            if is_sym(n):
                return self.mk(kind, length=n, view=get)
            return self.mk(kind, items=[get(i) for i in range(n)])
        return self.mk(kind, items=self.seq_items(v))

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kwargs):
        if isinstance(o, Arr):
            m = getattr(self, ('cd_' if o.counts else 'am_') + name, None)
            if m is None:
                raise Unsupported(f'method {name} on {o.kind}')
            return m(o, *args)
        if isinstance(o, FileObj):
            return o.method(self, name, args)
        if isinstance(o, dict):
            return self.dict_method(o, name, args)
        if isinstance(o, GenObj):
            raise Unsupported(f'generator method {name}')
        if isinstance(o, Opaque):
            return Opaque(name)
        if isinstance(o, cx.Cx):
            if name == 'conjugate':
                return cx.mk(o.re, self.binop('-', 0, o.im))
            raise PyExc('AttributeError', name)
        if is_sym(o):
            if name == 'conjugate':
                return o
            raise Unsupported(f'method {name} on a symbolic number')
        if isinstance(o, str) and name == 'join':
            its = [x for x in self.seq_items(args[0])]
            if any(not isinstance(x, str) for x in its):
                return Opaque('str')
            return o.join(its)
        return self.native_method(o, name, args, kwargs)

    def native_method(self, o, name, args, kwargs):
        a = []
        for v in args:
            if is_sym(v) or isinstance(v, (Opaque,)):
                return Opaque(name)
            if isinstance(v, Arr):
                if v.items is None or any(is_sym(x) for x in v.items):
                    raise Unsupported('symbolic argument to native method')
                v = list(v.items) if v.kind == 'list' else _array('B', v.items)
            a.append(v)
        try:
            return self.wrap(getattr(o, name)(*a, **kwargs))
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            raise PyExc(type(e).__name__, str(e))

    def dict_method(self, o, name, args):
        if any(is_sym(a) for a in args[:1]):
            if name == 'get':
                for k in list(o):
                    if isinstance(k, int) and self.decide(args[0] == k):
                        return self.wrap(o[k])
                return args[1] if len(args) > 1 else None
            raise Unsupported('symbolic dict key')
        if name in ('setdefault', 'pop', 'update', 'clear'):
            if id(o) not in self.new_dicts or self.loops or self.pure_below >= 0:
                raise Unsupported('dict mutation')
        if name == 'items':
            return self.mk('list', items=[(k, self.wrap(v)) for k, v in o.items()])
        if name == 'keys':
            return self.mk('list', items=list(o.keys()))
        if name == 'values':
            return self.mk('list', items=[self.wrap(v) for v in o.values()])
        return self.wrap(getattr(o, name)(*args))

    def cd_get(self, d, k, default=None):
        if self.decide(self.contains(k, d)):
            return d.view(k)
        return default

    def cd_setdefault(self, d, k, v=None):
        if not self.decide(self.contains(k, d)):
            self.set_index(d, k, v)
        return d.view(k)

    def am_append(self, a, v):
        if a.kind == 'B':
            self.byte_ok(v)
        if a.items is not None:
            a.touch()
            a.items = a.items + [v]
            a.length = len(a.items)
            return None
        va, n = a.snapshot(), a.length
        mem = a.member

        def view(j):
            c = unlift(lift(j) == lift(n))
            if not is_sym(c):
                return v if c else va(j)
            return merge_val(c, v, va(j))
        a.set_view(view, unlift(lift(n) + 1))
        if mem is not None:
            a.member = lambda w: or_(mem(w), self.compare('==', w, v))

    def am_extend(self, a, b):
        if not isinstance(b, Arr):
            b = self.to_list(b)
        self.extend(a, b)

    def am_frombytes(self, a, b):
        if not isinstance(b, Arr):
            raise Unsupported('frombytes')
        self.extend(a, b)

    def am_fromlist(self, a, b):
        self.extend(a, b)

    def am_tobytes(self, a):
        return self.copy(a, 'bytes')

    def am_tolist(self, a):
        return self.copy(a, 'list')

    def am_copy(self, a):
        return self.copy(a)

    def am_reverse(self, a):
        if a.items is not None:
            a.touch()
            a.items = a.items[::-1]
            return None
        v, n = a.snapshot(), a.length
        a.set_view(lambda j: v(unlift(lift(n) - 1 - lift(j))))

    def am_insert(self, a, i, v):
        if a.items is None or is_sym(i):
            raise Unsupported('insert')
        a.touch()
        a.items = list(a.items)
        a.items.insert(i, v)
        a.length = len(a.items)

    def am_pop(self, a, i=-1):
        if a.items is None or is_sym(i):
            raise Unsupported('pop')
        if not a.items:
            raise PyExc('IndexError', 'pop')
        a.touch()
        a.items = list(a.items)
        v = a.items.pop(i)
        a.length = len(a.items)
        return v

    def am_index(self, a, v):
        if a.items is None:
            f = getattr(a, 'indexer', None)
            if f is None:
                raise Unsupported('index')
            return f(v)
        for i, x in enumerate(a.items):
            if self.truth(self.compare('==', x, v)):
                return i
        raise PyExc('ValueError', 'not in list')

    def am_count(self, a, v):
        if a.items is None:
            raise Unsupported('count')
        r = 0
        for x in a.items:
            c = self.compare('==', x, v)
            r = self.binop('+', r, lift(c) if is_sym(c) else int(c))
        return r

    def am_sort(self, a):
        r = b_sorted(self, a)
        a.touch()
        a.items = r.items


class _OpaqueArg(Exception):
    pass


class _LoopDone(Exception):
    pass


class _SymMap(Exception):
    def __init__(self, n, get, it):
        self.n, self.get, self.it = n, get, it


class BoundMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.__name__ = name


class FileObj:
    """a modelled file: method(ctx, name, args)"""
    def __init__(self, impl):
        self.impl = impl
        self.closed = False

    def method(self, ctx, name, args):
        return self.impl(ctx, self, name, args)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
        ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}


# ---------------------------------------------------------------- builtins
def b_len(ctx, v):
    if isinstance(v, Arr) and v.counts:
        raise Unsupported('number of keys of a dictionary with symbolic keys')
    if isinstance(v, Arr):
        return v.length
    if isinstance(v, (tuple, str, dict, set)):
        return len(v)
    if isinstance(v, RangeObj):
        return ctx.range_len(v)
    if isinstance(v, Opaque):
        n = ctx.fresh('olen')
        ctx.fact(n >= 0)
        return n
    raise PyExc('TypeError', 'no len()')


def b_range(ctx, a, b=None, s=1):
    if b is None:
        a, b = 0, a
    for v in (a, b, s):
        if isinstance(v, float) or is_symreal(v) or v is None or isinstance(v, (Arr, tuple, str)):
            raise PyExc('TypeError', 'range needs integers')
        if isinstance(v, Poison):
            raise Unsupported(v.why)
    return RangeObj(a, b, s)


def b_abs(ctx, v):
    if isinstance(v, cx.Cx):
        return cx.modulus(ctx, v)
    if not is_sym(v):
        if isinstance(v, (int, float, complex)):
            return abs(v)
        raise PyExc('TypeError', 'abs')
    v = lift(v)
    return ite(v >= 0, v, -v)


def _minmax(ctx, args, lt):
    if len(args) == 1:
        args = ctx.seq_items(args[0])
        if not args:
            raise PyExc('ValueError', 'empty sequence')
    r = args[0]
    for a in args[1:]:
        if isinstance(r, (tuple, Arr)):
            raise Unsupported('min/max of sequences')
        c = ctx.compare('<' if lt else '>', a, r)
        r = ite(c, a, r) if is_sym(c) else (a if c else r)
    return r


def b_min(ctx, *a):
    return _minmax(ctx, a, True)


def b_max(ctx, *a):
    return _minmax(ctx, a, False)


def b_sum(ctx, v, start=0):
    if isinstance(v, (Arr, SeqObj, RangeObj)):
        n, get, _ = ctx.to_seq(v)
        if is_sym(n):
            return sym_sum(ctx, n, v.snapshot() if isinstance(v, Arr) else get, start)
    r = start
    for x in ctx.seq_items(v):
        r = ctx.binop('+', r, x)
    return r


def sym_sum(ctx, n, get, start):
    """sum of a sequence of symbolic length: a constant known by its length and its elements (see contracts.prove_sum)"""
    if is_sym(start) or start != 0:
        raise Unsupported('sum with a start value over a symbolic sequence')
    j = ctx.fresh('js')
    ctx.quiet += 1
    try:
        real = is_symreal(lift(get(j)))
    finally:
        ctx.quiet -= 1
    if ctx.ghost.get('congr'):      # the same elements: the same sum
        for S, m, g in ctx.ghost.get('sums', {}).values():
            ctx.quiet += 1
            try:
                if S.is_real() == real and ctx.valid(z3.And(lift(m) == lift(n), z3.Implies(z3.And(j >= 0, j < lift(n)), lift(g(j)) == lift(get(j))))):
                    return S
            finally:
                ctx.quiet -= 1
    S = ctx.fresh_real('sum') if real else ctx.fresh('sum')
    ctx.fact(z3.Implies(lift(n) == 0, S == 0))
    ctx.quiet += 1
    try:        # terms that are never negative have a sum that is not (induction over the number of terms)
        if ctx.valid(z3.Implies(z3.And(j >= 0, j < lift(n)), lift(get(j)) >= 0)):
            ctx.fact(S >= 0)
    finally:
        ctx.quiet -= 1
    ctx.ghost.setdefault('sums', {})[S.get_id()] = (S, n, get)
    return S


def b_list(ctx, v=()):
    return ctx.to_list(v)


def b_tuple(ctx, v=()):
    return tuple(ctx.seq_items(v))


def b_array(ctx, code, init=None):
    if code != 'B':
        raise Unsupported('array typecode')
    if init is None:
        return ctx.mk('B', items=[])
    if isinstance(init, (GenObj, RangeObj, SeqObj, tuple)):
        init = ctx.to_list(init)
    if not isinstance(init, Arr):
        raise PyExc('TypeError', 'array initialiser')
    ctx.check_bytes(init)
    r = ctx.copy(init, 'B')
    return r


def b_bytes(ctx, v=None):
    if v is None:
        return ctx.mk('bytes', items=[])
    if isinstance(v, Arr):
        ctx.check_bytes(v)
        return ctx.copy(v, 'bytes')
    if isinstance(v, int) or is_symint(v):
        return ctx.arr_binop('*', ctx.mk('bytes', items=[0]), v)
    raise Unsupported('bytes()')


def b_divmod(ctx, a, b):
    return (ctx.binop('//', a, b), ctx.binop('%', a, b))


def b_zip(ctx, *its):
    seqs = [ctx.to_seq(i) if not isinstance(i, GenObj) else ctx.to_seq(ctx.to_list(i)) for i in its]
    ns = [s[0] for s in seqs]
    if not any(is_sym(n) for n in ns):
        n = min(ns) if ns else 0
        return ctx.mk('list', items=[tuple(s[1](i) for s in seqs) for i in range(n)])
    n = ns[0]
    for m in ns[1:]:
        if is_sym(n) and is_sym(m) and n.eq(m):
            continue
        c = lift(n) <= lift(m)
        n = n if ctx.valid(c) else (m if ctx.valid(lift(m) <= lift(n)) else ite(c, n, m))
    gets = []
    for s, i in zip(seqs, its):
        gets.append(i.snapshot() if isinstance(i, Arr) else s[1])
    return SeqObj(n, lambda j: tuple(g(j) for g in gets))


def b_enumerate(ctx, it, start=0):
    if isinstance(it, GenObj):
        def run(cb):
            e = Env(None, '<enum>')
            e.vars['i'] = start

            def one(v):
                i = e.vars['i']
                cb((i, v))
                e.vars['i'] = ctx.binop('+', i, 1)
            ctx.in_frame(e, '<enum>', lambda: it.run(one))
        return GenObj(None, run, 'enumerate')
    n, get, dyn = ctx.to_seq(it)
    if not is_sym(n):
        return ctx.mk('list', items=[(start + i, get(i)) for i in range(n)])
    return SeqObj(n, lambda j: (ctx.binop('+', j, start), get(j)))


def b_reversed(ctx, it):
    if isinstance(it, Arr):
        return ctx.reversed_copy(it)
    n, get, dyn = ctx.to_seq(it)
    if not is_sym(n):
        return ctx.mk('list', items=[get(n - 1 - i) for i in range(n)])
    return SeqObj(n, lambda j: get(unlift(lift(n) - 1 - lift(j))))


def b_int(ctx, v=0, base=None):
    if base is not None:
        return ctx.native(int, [v, base], {})
    if isinstance(v, Opaque):
        return ctx.fresh('oint')
    if isinstance(v, cx.Cx):
        raise PyExc('TypeError', 'int of a complex number')
    if not is_sym(v):
        try:
            return int(v)
        except (TypeError, ValueError, OverflowError) as e:
            raise PyExc(type(e).__name__, str(e))
    if is_symbool(v):
        return lift(v)
    if v.is_int():
        return v
    s = z3.simplify(v)
    if z3.is_rational_value(s):
        return int(s.as_fraction())
    key = ('int', s.get_id())
    if key not in ctx.rc_memo:
        i = ctx.fresh('int') if not ctx.ghost.get('congr') else z3.Function('truncated', z3.RealSort(), z3.IntSort())(s)
        ri = z3.ToReal(i)
        ctx.fact(z3.And(z3.Implies(s >= 0, z3.And(ri <= s, s < ri + 1)), z3.Implies(s < 0, z3.And(ri - 1 < s, s <= ri))))
        ctx.rc_memo[key] = (i, None, s)
    return ctx.rc_memo[key][0]


def b_round(ctx, v, nd=None):
    if nd is not None:
        if is_sym(v):
            raise Unsupported('round with digits')
        return round(v, nd)
    if not is_sym(v):
        return round(v)
    if v.is_int():
        return v
    s = z3.simplify(v)
    if z3.is_rational_value(s):
        return round(s.as_fraction())
    key = ('round', s.get_id())
    if key not in ctx.rc_memo:
        i = ctx.fresh('rnd')
        ri = z3.ToReal(i)
        ctx.fact(z3.And(2 * ri - 1 <= 2 * s, 2 * s <= 2 * ri + 1))
        ctx.rc_memo[key] = (i, None, s)
    return ctx.rc_memo[key][0]


def b_float(ctx, v=0.0):
    if is_sym(v):
        return z3.ToReal(v) if v.is_int() else v
    return float(v)


def b_type(ctx, v):
    if is_symbool(v):
        return bool
    if is_symint(v):
        return int
    if is_symreal(v):
        return float
    if isinstance(v, Arr):
        return {'list': list, 'B': _arr_t, 'bytes': bytes}[v.kind]
    if isinstance(v, TypedOpaque):
        return v.t
    return type(v)


def b_isinstance(ctx, v, t):
    k = b_type(ctx, v)
    ts = t if isinstance(t, tuple) else (t,)
    return any(issubclass(k, x) for x in ts)


def b_bool(ctx, v=False):
    if is_sym(v):
        return unlift(liftb(v))
    if isinstance(v, Arr):
        return unlift(lift(v.length) > 0)
    return bool(v)


def b_ord(ctx, v):
    if isinstance(v, Arr):
        eq = unlift(lift(v.length) == 1)
        ctx.no_exc(eq, 'TypeError')
        return v.view(0)
    if isinstance(v, str):
        return ord(v)
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'char':     # a character of unknown code
        return v[1]
    raise Unsupported('ord')


def b_chr(ctx, v):
    if is_sym(v) or isinstance(v, Opaque):
        return Opaque('chr')
    return chr(v)


def b_str(ctx, v=''):
    if is_sym(v) or isinstance(v, (Opaque, Arr)):
        return Opaque('str')
    return str(v)


def b_all(ctx, v):
    r = True
    for x in ctx.seq_items(v):
        r = and_(r, liftb(x) if is_sym(x) else bool(x))
    return r


def b_any(ctx, v):
    r = False
    for x in ctx.seq_items(v):
        r = or_(r, liftb(x) if is_sym(x) else bool(x))
    return r


def b_map(ctx, f, *its):
    if len(its) == 1 and not isinstance(its[0], GenObj):
        n, get, _ = ctx.to_seq(its[0])
        if not is_sym(n):
            return ctx.mk('list', items=[ctx.call(f, [get(i)]) for i in range(n)])
    raise Unsupported('map')


def b_sorted(ctx, v, key=None, reverse=False):
    its = ctx.seq_items(v)
    if key is not None or any(isinstance(x, (tuple, Arr)) for x in its):
        if any(is_sym(x) for x in its):
            raise Unsupported('sorted with key')
        its = [list(x.items) if isinstance(x, Arr) else x for x in its]
        if any(is_sym(y) for x in its for y in (x if isinstance(x, (list, tuple)) else [x])):
            raise Unsupported('sort of symbolic sequences')
        if key is not None:
            raise Unsupported('sorted with key')
        return ctx.wrap(sorted(its, reverse=bool(reverse)))
    its = list(its)
    for i in range(1, len(its)):
        j = i
        while j > 0:
            c = ctx.compare('>', its[j - 1], its[j])
            a, b = its[j - 1], its[j]
            its[j - 1] = ite(c, b, a) if is_sym(c) else (b if c else a)
            its[j] = ite(c, a, b) if is_sym(c) else (a if c else b)
            j -= 1
    if reverse:
        its.reverse()
    return ctx.mk('list', items=its)


def b_print(ctx, *a, **k):
    return None


def b_iter(ctx, v):
    return v


def b_pow(ctx, a, b):
    return ctx.binop('**', a, b)


def b_dict(ctx, *a, **k):
    d = dict(k)
    if a:
        d.update(a[0] if isinstance(a[0], dict) else dict(ctx.seq_items(a[0])))
    ctx.new_dicts.add(id(d))
    ctx.keep.append(d)
    return d


def b_set(ctx, v=()):
    its = ctx.seq_items(v)
    if any(is_sym(i) for i in its):
        raise Unsupported('symbolic set')
    return set(its)


def _trig(name, real):
    def h(ctx, v):
        if not is_sym(v):
            try:
                return real(v)
            except (ValueError, TypeError) as e:
                raise PyExc(type(e).__name__, str(e))
        ctx.floats_used = True
        x = z3.ToReal(v) if v.is_int() else v
        f = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
        t = f(x)
        if name in ('sin', 'cos', 'tanh'):
            ctx.fact_once(('trig', name, x.get_id()), z3.And(t >= -1, t <= 1))
            ctx.keep.append(x)
        return t
    return h


def b_sqrt(ctx, v):
    if not is_sym(v):
        try:
            return math.sqrt(v)
        except ValueError as e:
            raise PyExc('ValueError', str(e))
    ctx.floats_used = True
    x = z3.ToReal(v) if v.is_int() else v
    ctx.no_exc(x >= 0, 'ValueError')
    key = ('sqrt', x.get_id())
    if key not in ctx.rc_memo:
        r = ctx.fresh_real('sqrt')
        ctx.fact(z3.And(r >= 0, ctx.rmul(r, r) == x, z3.Implies(x >= 1, z3.And(r >= 1, r <= x)),
                        z3.Implies(x <= 1, z3.And(r <= 1, r >= x))))
        ctx.rc_memo[key] = (r, None, x)
    return ctx.rc_memo[key][0]


def _arc(name, real):
    f = _trig(name, real)

    def h(ctx, v):
        if is_sym(v):
            x = z3.ToReal(v) if v.is_int() else v
            ctx.no_exc(z3.And(x >= -1, x <= 1), 'ValueError')
        return f(ctx, v)
    return h


def b_degrees(ctx, v):
    if not is_sym(v):
        return math.degrees(v)
    return ctx.binop('*', v, 180 / math.pi)


def b_reduce(ctx, f, it, *init):
    n, get, dyn = ctx.to_seq(it)
    if is_sym(n):
        raise Unsupported('reduce over a sequence of unknown length')
    xs = list(init) + [get(i) for i in range(n)]
    if not xs:
        raise PyExc('TypeError', 'reduce of an empty sequence')
    r = xs[0]
    for x in xs[1:]:
        r = ctx.call(f, [r, x])
    return r


def b_radians(ctx, v):
    if not is_sym(v):
        return math.radians(v)
    return ctx.binop('*', v, math.pi / 180)


def b_floor(ctx, v):
    if not is_sym(v):
        return math.floor(v)
    if v.is_int():
        return v
    return z3.ToInt(v)


def b_prod_hasattr(ctx, o, n):
    if isinstance(o, Arr):
        return hasattr({'list': list, 'B': _arr_t, 'bytes': bytes}[o.kind], n)
    return hasattr(o, n)


def b_rect(ctx, r, t):
    if not is_sym(r) and not is_sym(t):
        return cmath.rect(r, t)
    return cx.mk(ctx.binop('*', r, BUILTINS[math.cos](ctx, t)), ctx.binop('*', r, BUILTINS[math.sin](ctx, t)))


class TypedOpaque(Opaque):
    """a value of a known type about which nothing else is known"""
    def __init__(self, t):
        super().__init__('typed')
        self.t = t


BUILTINS = {
    len: b_len, range: b_range, abs: b_abs, min: b_min, max: b_max, sum: b_sum, list: b_list, tuple: b_tuple,
    divmod: b_divmod, zip: b_zip, enumerate: b_enumerate, reversed: b_reversed, int: b_int, round: b_round,
    float: b_float, type: b_type, isinstance: b_isinstance, bool: b_bool, ord: b_ord, chr: b_chr, str: b_str,
    all: b_all, any: b_any, map: b_map, sorted: b_sorted, print: b_print, iter: b_iter, bytes: b_bytes,
    _arr_t: b_array, dict: b_dict, set: b_set, pow: b_pow, hasattr: b_prod_hasattr,
    math.tanh: _trig('tanh', math.tanh), math.sin: _trig('sin', math.sin), math.cos: _trig('cos', math.cos), math.tan: _trig('tan', math.tan),
    math.atan: _trig('atan', math.atan), math.exp: _trig('exp', math.exp),
    math.acos: _arc('acos', math.acos), math.asin: _arc('asin', math.asin), math.degrees: b_degrees, functools.reduce: b_reduce,
    cmath.rect: b_rect, math.sqrt: b_sqrt, math.radians: b_radians, math.floor: b_floor, **cx.BUILTINS,
}


# ---------------------------------------------------------------- exploration
class Explorer:
    def __init__(self, label, registry=None, target=None, loopspec=None, timeout_ms=20000, feas_ms=2500, budget_s=240,
                 crosscheck=False, max_fail=3, unroll=None, on_model=None, small_hints=None, inline_modules=()):
        self.label = label
        self.registry = registry or {}
        self.target = target
        self._loopspec = loopspec
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.budget_s = budget_s
        self.crosscheck = crosscheck
        self.max_fail = max_fail
        self.on_model = on_model
        self.small_hints = small_hints or (lambda ctx: [])
        self.loopinfo = {}
        self.stats = Stats()
        self.deadline = 0
        self._unroll = unroll
        self.inline_modules = inline_modules

    def loopspec(self, ctx, L):
        for s in reversed(ctx.specs):
            r = s(L)
            if r is not None:
                return r
        return self._loopspec(L) if self._loopspec else None

    def unroll_limit(self, ctx, node):
        return self._unroll(ctx, node) if self._unroll else None

    def run(self, thunk):
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        restarts = 0
        stack = [[]]
        try:
            while stack:
                prefix = stack.pop()
                ex = Ctx(self, prefix)
                try:
                    thunk(ex)
                except PathEnd:
                    pass
                except PyExc as e:
                    # the program raises on a path: an obligation that this path is unreachable
                    try:
                        ex.prove(False, f'no exception ({e.tname}: {str(e.msg)[:120]})', 'no-exception')
                    except PathEnd:
                        pass
                except Restart:
                    restarts += 1
                    if restarts > 400:
                        raise Unsupported('loop discovery does not converge')
                    st = Stats()
                    st.solver_s = self.stats.solver_s
                    self.stats = st
                    stack = [[]]
                    continue
                except NeedFork:
                    raise Unsupported('unmergeable value in a pure context')
                self.stats.paths += 1
                if time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                stack.extend(ex.logs[0].alts)
        except StopVerify:
            pass
        except Unsupported as e:
            self.stats.failed.append(dict(name=f'{self.label}: verification condition generation',
                                          kind='unsupported', status='undischarged: ' + str(e), model=None))
        except RecursionError:
            self.stats.failed.append(dict(name=f'{self.label}: verification condition generation',
                                          kind='unsupported', status='undischarged: recursion limit', model=None))
        except z3.Z3Exception as e:
            self.stats.failed.append(dict(name=f'{self.label}: verification condition generation',
                                          kind='unsupported', status=f'undischarged: solver error {e}', model=None))
        self.stats.wall = time.time() - t0
        self.stats.restarts = restarts
        return self.stats
