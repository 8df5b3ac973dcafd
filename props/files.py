"""Contracts of the file system calls the library uses (assumed): a file is a byte sequence, or it is missing."""
from .contracts import *
ASSUMED_FS = 'contracts of open/read/write/seek/close and isfile: a file is a byte sequence; reads return the bytes at the position, writes append to a truncated file'


class FS:
    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}        # name -> (length, view) ; absent: missing
        self.writes = []       # names opened for writing, in order
        self.reads = []

    def put(self, name, length, view):
        self.files[name] = (length, view)


def c_isfile(ctx, name):
    fs = ctx.ghost['fs']
    return name in fs.files


def c_open(ctx, name, mode='r', *a, **k):
    fs = ctx.ghost['fs']
    if not isinstance(name, str) or mode not in ('rb', 'wb'):
        return NotImplemented
    if mode == 'rb':
        if name not in fs.files:
            raise PyExc('FileNotFoundError', name)
        fs.reads.append(name)
        n, view = fs.files[name]
        st = {'pos': 0}

        def impl(ctx, fo, m, args):
            if m == 'read':
                avail = unlift(lift(n) - lift(st['pos']))
                q = avail if not args or args[0] is None else ite_min(ctx, args[0], avail)
                p0 = st['pos']
                st['pos'] = unlift(lift(p0) + lift(q))
                if not is_sym(q) and q <= 64:
                    return ctx.mk('bytes', items=[view(unlift(lift(p0) + i)) for i in range(max(q, 0))])
                return ctx.mk('bytes', length=q, view=lambda j, p0=p0: view(unlift(lift(p0) + lift(j))))
            if m == 'seek':
                st['pos'] = args[0]
                return args[0]
            if m == 'tell':
                return st['pos']
            if m == 'close':
                return None
            raise Unsupported('file method ' + m)
        return FileObj(impl)
    fs.writes.append(name)
    fs.files[name] = (0, lambda j: 0)

    def wimpl(ctx, fo, m, args):
        if m == 'write':
            n, old = fs.files[name]
            a = args[0]
            if not isinstance(a, Arr) or a.kind == 'list':
                raise PyExc('TypeError', 'write of a non-buffer')
            v = a.snapshot()
            al = a.length
            if not is_sym(n) and n == 0:
                fs.files[name] = (al, v)
            else:
                fs.files[name] = (unlift(lift(n) + lift(al)), lambda j: ite(lift(j) < lift(n), old(j), v(unlift(lift(j) - lift(n)))))
            return al
        if m in ('close', 'flush'):
            return None
        raise Unsupported('file method ' + m)
    return FileObj(wimpl)


def ite_min(ctx, a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    c = unlift(lift(a) <= lift(b))
    if not is_sym(c):
        return a if c else b
    return a if ctx.decide(c) else b


def c_nop(ctx, *a):
    return None


FSREG = {('_io', 'open'): c_open, ('io', 'open'): c_open, ('genericpath', 'isfile'): c_isfile, (LIB, 'ensurePaintWrapperInPath'): c_nop}


def same_bytes(ctx, n1, v1, n2, v2, label):
    ctx.prove(eqv(n1, n2), f'{label}: same length')
    j = ctx.fresh('jf')
    ctx.push()
    ctx.solver.add(j >= 0, j < lift(n2))
    ctx.prove(eqv(v1(j), v2(j)), f'{label}: same bytes')
    ctx.pop()
