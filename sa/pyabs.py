"""Abstract interpreter for the Python model sources (abstract values from num.py).

Nothing of the analysed package is imported or executed: the sources are parsed with `ast` and
evaluated over abstract values.  numpy is modelled by the transfer functions below.
"""
import ast
import os
from fractions import Fraction
from poly import Lin
from num import Expr, Undecided, Infeasible


# ------------------------------------------------------------------------------------- values
class Sc:
    """Scalar: ty in int/float (Python), f8/i8/u8 (numpy scalar); e: Expr"""
    __slots__ = ("ty", "e")

    def __init__(self, ty, e):
        self.ty = ty
        self.e = Expr.of(e)

    def __repr__(self):
        return f"{self.ty}:{self.e}"


class Special:
    """non-finite double"""
    def __init__(self, name):
        self.name = name


class Buf:
    __slots__ = ("els", "dtype", "tag", "view")

    def __init__(self, els, dtype, tag="fresh"):
        self.els = list(els)
        self.dtype = dtype
        self.tag = tag
        self.view = False


class Nd(int):
    """number of dimensions with the shape (C order)"""
    def __new__(cls, dims):
        o = int.__new__(cls, len(dims))
        o.dims = tuple(dims)
        return o


def dims(a):
    """shape of an array"""
    if isinstance(a.nd, Nd):
        return a.nd.dims
    return () if a.nd == 0 else (len(a.els),) + (1,) * (a.nd - 1)


def mknd(dm):
    return Nd(dm) if len(dm) > 1 else len(dm)


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def bdims(I, ds):
    """shape of a broadcast result"""
    n = max(len(d) for d in ds)
    out = []
    for k in range(n):
        s = {d[k - n + len(d)] for d in ds if k - n + len(d) >= 0} - {1}
        if len(s) > 1:
            I.err("ValueError", "operands could not be broadcast together")
        out.append(s.pop() if s else 1)
    return tuple(out)


def expand(a, d):
    """elements of a broadcast to the shape d"""
    e = dims(a)
    if e == d:
        return a.els
    if len(a.els) == 1:
        return a.els * prod(d)
    e = (1,) * (len(d) - len(e)) + e
    pos = [0]
    for m, k in zip(e, d):
        pos = [p * m + (i if m > 1 else 0) for p in pos for i in range(k)]
    return [a.els[p] for p in pos]


def bca(I, xs):
    """arrays prepared for an element-wise operation (all of the result's shape or single elements), nd of the result"""
    nd = max(x.nd for x in xs)
    if nd < 2:
        return xs, nd
    d = bdims(I, [dims(x) for x in xs])
    n = prod(d)
    return [x if len(x.els) in (1, n) and (len(x.els) == 1 or dims(x)[-len(d):] == d) else Arr(expand(x, d), x.dtype, mknd(d))
            for x in xs], mknd(d)


def bidx(I, d, idx):
    """basic indexing -> (flat positions, shape of the result)"""
    its = list(idx) if isinstance(idx, tuple) else [idx]
    used = sum(1 for x in its if x is not None and x is not Ellipsis)
    if used > len(d):
        I.err("IndexError", "too many indices")
    if its.count(Ellipsis) > 1:
        I.err("IndexError", "an index can only have a single ellipsis")
    if Ellipsis not in its:
        its.append(Ellipsis)
    p = its.index(Ellipsis)
    its[p:p + 1] = [slice(None)] * (len(d) - used)
    pos, out, ax = [0], [], 0
    for x in its:
        if x is None:
            out.append(1)
            continue
        m = d[ax]
        ax += 1
        if isinstance(x, Sc) and x.ty == "i8" or isinstance(x, Lin):
            k = I.c.norm(x.e).as_const() if isinstance(x, Sc) else I.c.lin(x).c if I.c.lin(x).is_const() else None
            if k is None:
                I.un("symbolic array index")
            x = int(k)
        if isinstance(x, int) and not isinstance(x, bool):
            if not -m <= x < m:
                I.err("IndexError")
            pos = [q * m + x % m for q in pos]
        elif isinstance(x, slice) and all(y is None or isinstance(y, int) for y in (x.start, x.stop, x.step)):
            r = range(m)[x]
            out.append(len(r))
            pos = [q * m + i for q in pos for i in r]
        else:
            I.un("array index")
    return pos, tuple(out)


def row(o, i):
    """o[i] of an array with two or more dimensions"""
    d = dims(o)
    k = len(o.els) // d[0] if d[0] else 0
    return view(Arr(o.els[i * k:(i + 1) * k], o.dtype, mknd(d[1:]), tag=o.buf.tag))


def view(a):
    a.buf.view = True
    return a


class Arr:
    """ndarray. nd: 0 (0-d) or 1.. ; rows: optional list of Arr for arrays with a trailing stack axis."""
    __slots__ = ("buf", "nd", "extra")

    def __init__(self, els, dtype, nd, tag="fresh", buf=None):
        self.buf = buf if buf is not None else Buf(els, dtype, tag)
        self.nd = nd
        self.extra = None

    @property
    def els(self):
        return self.buf.els

    @property
    def dtype(self):
        return self.buf.dtype

    def __repr__(self):
        return f"Arr{self.nd}<{self.dtype}>{self.els}"


class DType:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "dtype:" + str(self.k)


class Via(str):
    """narrow dtype, modelled by the 64-bit one of its kind with the rounding / range of the narrow type on every store;
    a path on which one occurs is never counted as proved (Ctx.soft)"""
    def __new__(cls, base, real, p=53, bits=64):
        s = str.__new__(cls, base)
        s.real, s.p, s.bits = real, p, bits
        return s


VIA = {"f4": Via("f8", "float32", 24), "f2": Via("f8", "float16", 11), "i4": Via("i8", "int32", bits=32), "i2": Via("i8", "int16", bits=16),
       "i1": Via("i8", "int8", bits=8), "u4": Via("u8", "uint32", bits=32), "u2": Via("u8", "uint16", bits=16), "u1": Via("u8", "uint8", bits=8)}


class Cls:
    def __init__(self, name, bases, ns, where):
        self.name, self.bases, self.ns, self.where = name, bases, ns, where

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def has(self, n):
        return any(n in c.ns for c in self.mro())

    def __repr__(self):
        return f"<class {self.name}>"


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.tag = "fresh"

    def __repr__(self):
        return f"<{self.cls.name} {self.attrs}>"


class EnumMem:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class SymMem(EnumMem):
    """An arbitrary member of an enumeration; the cell is split only as far as the code distinguishes members."""
    def __init__(self, I, members, key):
        self.I, self.opts, self.cls, self.key = I, list(members), members[0].cls, key

    def is_(self, m):
        c = self.I.c
        if m is self:
            return True
        if isinstance(m, SymMem):
            return self.one() is m.one()
        if m not in self.opts:
            return False
        if len(self.opts) == 1:
            return True
        if c.choose() == 0:
            self.opts = [m]
            return True
        self.opts = [x for x in self.opts if x is not m]
        return False

    def among(self, names):
        """Is the member one of names?  Splits the cell in two when undetermined."""
        a = [m for m in self.opts if m.name in names]
        b = [m for m in self.opts if m.name not in names]
        if not a or not b:
            return bool(a)
        if self.I.c.choose() == 0:
            self.opts = a
            return True
        self.opts = b
        return False

    def one(self):
        if len(self.opts) > 1:
            self.opts = [self.opts[self.I.c.choose(len(self.opts))]]
        return self.opts[0]

    @property
    def name(self):
        return self.one().name

    @property
    def value(self):
        return self.one().value

    def __repr__(self):
        return "|".join(m.name for m in self.opts)


class Func:
    def __init__(self, node, env, mod, name, cls=None):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults = []
        self.kwdefaults = {}

    def __repr__(self):
        return f"<function {self.name}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Native:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"<native {self.name}>"


class Prop:
    def __init__(self, fget):
        self.fget = fget
        self.fset = None


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class NpMod:
    def __init__(self, path):
        self.path = path


class Opaque:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


class SymStr:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                out.extend(p.parts)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        self.parts = m

    def __repr__(self):
        return "S" + repr(self.parts)


class PyRaise(Exception):
    def __init__(self, name, where, msg=""):
        self.name, self.where, self.msg = name, where, msg


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


EXC = {"Exception": None, "BaseException": None, "ArithmeticError": "Exception", "LookupError": "Exception",
       "AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
       "AttributeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
       "NameError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
       "OverflowError": "ArithmeticError", "ZeroDivisionError": "ArithmeticError", "Warning": "Exception",
       "UserWarning": "Warning", "RuntimeWarning": "Warning", "ImportError": "Exception",
       "StopIteration": "Exception", "OSError": "Exception", "DeprecationWarning": "Warning"}


class ExcCls:
    def __init__(self, name):
        self.name = name


class ExcInst:
    def __init__(self, name, args):
        self.name, self.args = name, args


def exc_isa(n, m):
    while n:
        if n == m:
            return True
        n = EXC.get(n)
        if n is None and m in ("Exception", "BaseException"):
            return True
    return m == "BaseException"


class PyList:
    __slots__ = ("v", "tag")

    def __init__(self, v):
        self.v = list(v)
        self.tag = "fresh"


class PyDict:
    def __init__(self, items=()):
        self.items = list(items)
        self.tag = "fresh"


class Env:
    __slots__ = ("d", "up", "glob", "globals_")

    def __init__(self, up, glob):
        self.d = {}
        self.up = up
        self.glob = glob
        self.globals_ = set()


NUMT = (int, Lin, Sc, bool)
RANK = {"b": 0, "i8": 2, "u8": 2, "f8": 4, "O": 9}


class Interp:
    """One abstract execution along one cell of the trace partition."""
    SRC = {}

    def __init__(self, ctx, pkgdir, summaries=None):
        self.c = ctx
        self.pkgdir = pkgdir
        self.mods = {}
        self.where = ("?", 0, "?")
        self.depth = 0
        self.steps = 0
        self.phase = "load"
        self.summaries = summaries or {}
        self.shared = set()
        self.keep = []
        self.stack = []
        self.files = {}

    # ------------------------------------------------------------ modules
    def source(self, name):
        p = os.path.join(self.pkgdir, name + ".py")
        key = p
        if key not in Interp.SRC:
            with open(p) as f:
                t = f.read()
            Interp.SRC[key] = ast.parse(t, p)
        return p, Interp.SRC[key]

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p, tree = self.source(name)
        m = Mod(name, {"__name__": name})
        self.mods[name] = m
        env = Env(None, m.ns)
        env.d = m.ns
        self.files[name] = p
        old = self.where
        oldp = self.phase
        self.phase = "load"
        self.run_block(tree.body, env, m)
        self.phase = oldp
        self.where = old
        return m

    def err(self, name, msg=""):
        raise PyRaise(name, self.where, msg)

    def un(self, what):
        raise Undecided(f"{what} at {os.path.basename(self.where[0])}:{self.where[1]} in {self.where[2]}")

    # ------------------------------------------------------------ statements
    def run_block(self, body, env, mod):
        for s in body:
            self.run_stmt(s, env, mod)

    def run_stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > 60000:
            self.un("step budget")
        self.where = (self.files.get(mod.name, mod.name), getattr(s, "lineno", 0), self.where[2])
        k = type(s).__name__
        if self.phase == "run":
            self.c.trace.append(f"{mod.name}.py:{s.lineno} in {self.where[2]}")
        getattr(self, "s_" + k, self.s_unknown)(s, env, mod)

    def s_unknown(self, s, env, mod):
        self.un("statement " + type(s).__name__)

    def s_Pass(self, s, env, mod):
        pass

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Import(self, s, env, mod):
        for a in s.names:
            n = a.name
            v = self.import_mod(n)
            env.d[a.asname or n.split(".")[0]] = v

    def import_mod(self, n):
        top = n.split(".")[0]
        if top == "numpy":
            return NpMod("np")
        if top in ("warnings", "random", "copy", "math", "enum", "functools", "operator", "itertools",
                   "typing", "os", "sys", "numbers", "contextlib"):
            return NpMod(top)
        return Opaque("module " + n)

    def s_ImportFrom(self, s, env, mod):
        if s.level or (s.module and s.module.startswith("en_cl_fix_pkg")):
            base = (s.module or "").split(".")[-1] if s.module else ""
            if not base or base == "en_cl_fix_pkg":
                for a in s.names:
                    env.d[a.asname or a.name] = self.module(a.name)
                return
            m = self.module(base)
            for a in s.names:
                if a.name == "*":
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            env.d[k] = v
                else:
                    if a.name not in m.ns:
                        self.err("ImportError", a.name)
                    env.d[a.asname or a.name] = m.ns[a.name]
            return
        base = self.import_mod(s.module)
        for a in s.names:
            env.d[a.asname or a.name] = self.getattr(base, a.name)

    def s_FunctionDef(self, s, env, mod):
        f = Func(s, env, mod, s.name)
        f.defaults = [self.ev(d, env, mod) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env, mod) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        for d in f.defaults:
            self.mark_shared(d)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env, mod)
            v = self.call(dv, [v], {})
        env.d[s.name] = v

    def mark_shared(self, v):
        if isinstance(v, (PyList, PyDict, Inst, Arr)):
            self.shared.add(id(v))
            self.keep.append(v)

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        e2 = Env(env, env.glob)
        cl = Cls(s.name, bases, e2.d, self.where)
        self.run_block(s.body, e2, mod)
        for v in e2.d.values():
            f = v.fn if isinstance(v, (StaticM, ClassM)) else v.fget if isinstance(v, Prop) else v
            if isinstance(f, Func):
                f.cls = cl
        if any(isinstance(b, Opaque) and b.what in ("Enum", "IntEnum") for b in bases):
            for k, v in list(e2.d.items()):
                if not k.startswith("_") and not isinstance(v, (Func, Prop, StaticM, ClassM)):
                    alias = [m for m in e2.d.values() if isinstance(m, EnumMem) and m.value == v]
                    e2.d[k] = alias[0] if alias else EnumMem(cl, k, v)
        v = cl
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env, mod), [v], {})
        env.d[s.name] = v

    def s_Return(self, s, env, mod):
        raise _Ret(self.ev(s.value, env, mod) if s.value else None)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        cur = self.ev(self.as_load(t), env, mod)
        r = self.ev(s.value, env, mod)
        if isinstance(cur, Arr):
            res = self.binop(s.op, cur, r)
            rl = res if isinstance(res, Arr) else self.to_arr(res)
            if RANK[rl.dtype] > RANK[cur.dtype] and cur.dtype != "O":
                self.err("UFuncTypeError", "in-place cast")
            self.mutate(cur, "in-place operation")
            els = rl.els
            if len(els) != len(cur.els):
                if len(els) == 1:
                    els = els * len(cur.els)
                else:
                    self.un("in-place broadcast")
            cur.buf.els[:] = [self.cast_el(x, rl.dtype, cur.dtype) for x in els]
            self.assign(t, cur, env, mod) if isinstance(t, ast.Name) else None
            return
        if isinstance(cur, PyList) and isinstance(s.op, ast.Add):
            self.touch(cur, "list +=")
            cur.v.extend(self.iterate(r))
            return
        self.assign(t, self.binop(s.op, cur, r), env, mod)

    @staticmethod
    def as_load(t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        return ast.copy_location(t2, t)

    def mutate(self, arr, how):
        if arr.buf.tag != "fresh":
            self.c.events.append(("mutate", arr.buf.tag, how, self.where))
        if arr.buf.view:
            self.un("write through a view of a part of an array")

    def touch(self, obj, how):
        tag = getattr(obj, "tag", "fresh")
        if tag != "fresh":
            self.c.events.append(("mutate", tag, how, self.where))
        if self.phase == "run" and id(obj) in self.shared:
            self.c.events.append(("state", "module state", how, self.where))

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                if self.phase == "run":
                    self.c.events.append(("state", "global " + t.id, "assignment", self.where))
                env.glob[t.id] = v
            else:
                env.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                tail = n - i
                parts = vs[:i] + [PyList(vs[i:len(vs) - tail])] + vs[len(vs) - tail:]
                for tt, x in zip(t.elts, parts):
                    self.assign(tt.value if isinstance(tt, ast.Starred) else tt, x, env, mod)
                return
            if len(vs) != len(t.elts):
                self.err("ValueError", "unpack")
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, t.slice, v, env, mod)
        else:
            self.un("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if self.phase == "run":
                self.touch(o, f"assignment to .{name}")
            p = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    self.err("AttributeError", name)
                self.call(p.fset, [o, v], {})
                return
            o.attrs[name] = v
        elif isinstance(o, Cls):
            if self.phase == "run":
                self.c.events.append(("state", f"class attribute {o.name}.{name}", "assignment", self.where))
            o.ns[name] = v
        elif isinstance(o, Mod):
            if self.phase == "run":
                self.c.events.append(("state", f"module attribute {name}", "assignment", self.where))
            o.ns[name] = v
        elif isinstance(o, Func):
            if self.phase == "run":
                self.c.events.append(("state", f"function attribute {name}", "assignment", self.where))
            if not hasattr(o, "attrs"):
                o.attrs = {}
            o.attrs[name] = v
        elif isinstance(o, Arr) and name in ("shape",):
            self.un("array shape assignment")
        else:
            self.un(f"attribute assignment {name}")

    def setitem(self, o, sl, v, env, mod):
        if isinstance(o, Arr):
            idx = self.ev_index(sl, env, mod)
            self.mutate(o, "element assignment")
            if o.nd >= 2 and not (isinstance(idx, Arr) and idx.dtype == "b" and dims(idx) == dims(o)):
                if isinstance(idx, Arr):
                    self.un("array assignment")
                pos, d = bidx(self, dims(o), idx)
                vs = v if isinstance(v, Arr) else self.to_arr(v, "O" if o.dtype == "O" else None)
                e = dims(vs)
                while len(e) > len(d) and e[0] == 1:
                    e = e[1:]
                vs = Arr(vs.els, vs.dtype, mknd(e))
                if len(e) > len(d) or bdims(self, [e, d]) != d:
                    self.err("ValueError", "could not broadcast")
                for p, x in zip(pos, expand(vs, d)):
                    o.buf.els[p] = self.cast_el(x, vs.dtype, o.dtype)
                return
            if isinstance(idx, int):
                if not -len(o.els) <= idx < len(o.els):
                    self.err("IndexError")
                if isinstance(v, Arr):
                    if v.nd:
                        if len(v.els) != 1:
                            self.err("ValueError", "sequence into element")
                    v = self.el_scalar(v, 0)
                o.buf.els[idx] = self.to_el(v, o.dtype)
                return
            if isinstance(idx, slice) or idx is Ellipsis:
                vs = v if isinstance(v, Arr) else self.to_arr(v, "O" if o.dtype == "O" else None)
                if vs.nd >= 2 and dims(vs) != (1,) * (vs.nd - 1) + dims(o)[-1:]:
                    self.err("ValueError", "could not broadcast")
                if len(vs.els) not in (1, len(o.els)):
                    self.err("ValueError", "could not broadcast")
                els = vs.els if len(vs.els) == len(o.els) else vs.els * len(o.els)
                if idx is not Ellipsis and idx != slice(None, None, None):
                    self.un("slice assignment")
                o.buf.els[:] = [self.cast_el(x, vs.dtype, o.dtype) for x in els]
                return
            if isinstance(idx, Arr) and idx.dtype == "b":
                vs = v if isinstance(v, Arr) else self.to_arr(v)
                sel = [i for i, b in enumerate(idx.els) if b]
                for j, i in enumerate(sel):
                    x = vs.els[j] if len(vs.els) == len(sel) and vs.nd else vs.els[0]
                    if vs.nd and len(vs.els) not in (len(sel), 1):
                        self.err("ValueError")
                    o.buf.els[i] = self.cast_el(x, vs.dtype, o.dtype)
                return
            self.un("array element assignment")
        if isinstance(o, PyList):
            idx = self.ev_index(sl, env, mod)
            self.touch(o, "list item assignment")
            if isinstance(idx, int):
                if not -len(o.v) <= idx < len(o.v):
                    self.err("IndexError")
                o.v[idx] = v
                return
        if isinstance(o, PyDict):
            k = self.ev_index(sl, env, mod)
            self.touch(o, "dict item assignment")
            for i, (kk, _) in enumerate(o.items):
                if self.eq(kk, k) is True:
                    o.items[i] = (kk, v)
                    return
            o.items.append((k, v))
            return
        if isinstance(o, (tuple, str)):
            self.err("TypeError", "item assignment")
        self.un("item assignment")

    def s_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.run_block(s.body, env, mod)
        else:
            self.run_block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        n = 0
        broke = False
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 300:
                self.un("loop bound")
            try:
                self.run_block(s.body, env, mod)
            except _Brk:
                broke = True
                break
            except _Cont:
                pass
        if not broke:
            self.run_block(s.orelse, env, mod)

    def s_For(self, s, env, mod):
        broke = False
        it = self.ev(s.iter, env, mod)
        for v in self.iterate(it):
            self.assign(s.target, v, env, mod)
            try:
                self.run_block(s.body, env, mod)
            except _Brk:
                broke = True
                break
            except _Cont:
                pass
        if not broke:
            self.run_block(s.orelse, env, mod)

    def s_Break(self, s, env, mod):
        raise _Brk()

    def s_Continue(self, s, env, mod):
        raise _Cont()

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            self.where = (self.files.get(mod.name, mod.name), s.lineno, self.where[2])
            self.err("AssertionError")

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is not None:
                raise cur
            self.un("bare raise")
        v = self.ev(s.exc, env, mod)
        self.where = (self.files.get(mod.name, mod.name), s.lineno, self.where[2])
        if isinstance(v, ExcCls):
            self.err(v.name)
        if isinstance(v, ExcInst):
            self.err(v.name)
        if isinstance(v, (Inst, Cls)):
            c = v.cls if isinstance(v, Inst) else v
            for b in c.mro()[::-1]:
                pass
            nm = c.name
            for b in c.bases:
                if isinstance(b, ExcCls):
                    EXC.setdefault(nm, b.name)
            self.err(nm)
        self.un("raise")

    def s_Try(self, s, env, mod):
        try:
            try:
                self.run_block(s.body, env, mod)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env, mod)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, ExcCls) and exc_isa(e.name, x.name)
                                 or isinstance(x, Cls) and x.name == e.name for x in ts)
                    if ok:
                        if h.name:
                            env.d[h.name] = ExcInst(e.name, [])
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            self.run_block(h.body, env, mod)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.run_block(s.orelse, env, mod)
        finally:
            # (control flow exceptions also run the finaliser)
            if s.finalbody:
                self.run_block(s.finalbody, env, mod)

    def s_With(self, s, env, mod):
        for it in s.items:
            v = self.ev(it.context_expr, env, mod)
            if isinstance(v, Opaque) and v.what.startswith("catch_warnings"):
                n0 = len(self.c.events)
                self.run_block(s.body, env, mod)
                self.un("warnings context")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        self.run_block(s.body, env, mod)

    def s_Global(self, s, env, mod):
        env.globals_.update(s.names)

    def s_Nonlocal(self, s, env, mod):
        self.un("nonlocal")

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.d.pop(t.id, None)
            else:
                self.un("del")

    def s_Match(self, s, env, mod):
        subj = self.ev(s.subject, env, mod)
        for case in s.cases:
            if self.match(case.pattern, subj, env, mod) and \
                    (case.guard is None or self.truth(self.ev(case.guard, env, mod))):
                self.run_block(case.body, env, mod)
                return

    def match(self, p, v, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, mod):
                return False
            if p.name:
                env.d[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSequence) and isinstance(v, (tuple, PyList)):
            vs = self.iterate(v)
            return len(vs) == len(p.patterns) and all(self.match(q, x, env, mod) for q, x in zip(p.patterns, vs))
        self.un("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, n, env, mod):
        self.steps += 1
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            self.un("expression " + k)
        return f(n, env, mod)

    def e_Constant(self, n, env, mod):
        v = n.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return Special(repr(v))
            return Sc("float", Expr.const(Fraction(v)))
        return v

    def e_Name(self, n, env, mod):
        e = env
        while e is not None:
            if n.id in e.d and not (n.id in e.globals_):
                return e.d[n.id]
            e = e.up
        if n.id in env.glob:
            return env.glob[n.id]
        if n.id in BUILTINS:
            return Native(BUILTINS[n.id], n.id)
        if n.id in EXC:
            return ExcCls(n.id)
        if n.id in TYPES:
            return TYPES[n.id]
        if n.id == "__name__":
            return mod.name
        if n.id == "NotImplemented":
            return Opaque("NotImplemented")
        self.where = (self.files.get(mod.name, mod.name), n.lineno, self.where[2])
        self.err("NameError", n.id)

    def e_Tuple(self, n, env, mod):
        return tuple(self.elts(n.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_List(self, n, env, mod):
        r = PyList(self.elts(n.elts, env, mod))
        if self.phase == "load":
            self.mark_shared(r)
        return r

    def e_Set(self, n, env, mod):
        return tuple(self.elts(n.elts, env, mod))

    def e_Dict(self, n, env, mod):
        d = PyDict([(self.ev(k, env, mod), self.ev(v, env, mod)) for k, v in zip(n.keys, n.values)])
        if self.phase == "load":
            self.mark_shared(d)
        return d

    def e_Lambda(self, n, env, mod):
        f = Func(n, env, mod, "<lambda>")
        f.defaults = [self.ev(d, env, mod) for d in n.args.defaults]
        return f

    def e_IfExp(self, n, env, mod):
        return self.ev(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)

    def e_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        self.assign(n.target, v, env, mod)
        return v

    def e_BoolOp(self, n, env, mod):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, env, mod)
            if x is n.values[-1]:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, bool):
                return -2 if v else -1
            if isinstance(v, Arr) and v.dtype == "b":
                return Arr([not x for x in v.els], "b", v.nd)
            if isinstance(v, Inst) and v.cls.has("__invert__"):
                return self.call_method(v, "__invert__", [])
            if isinstance(v, BoolNp):
                return BoolNp(not v.b)
            return self.binop(ast.Sub(), self.neg(v), 1)
        self.un("unary")

    def neg(self, v):
        if isinstance(v, Inst):
            return self.call_method(v, "__neg__", [])
        if isinstance(v, bool):
            return -int(v)
        if isinstance(v, (int, Lin)):
            return -v
        if isinstance(v, Sc):
            return Sc(v.ty, -v.e)
        if isinstance(v, Arr):
            if v.dtype == "b":
                self.err("TypeError", "negative of bool array")
            return self.wrap([self.neg(self.el_scalar(v, i)) for i in range(len(v.els))], v.dtype, v.nd)
        self.un("negation")

    def e_BinOp(self, n, env, mod):
        a = self.ev(n.left, env, mod)
        b = self.ev(n.right, env, mod)
        return self.binop(n.op, a, b)

    def e_Compare(self, n, env, mod):
        left = self.ev(n.left, env, mod)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env, mod)
            res = self.compare(op, left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_Call(self, n, env, mod):
        f = self.ev(n.func, env, mod)
        args = self.elts(n.args, env, mod)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env, mod)
                if not isinstance(d, PyDict):
                    self.un("**kwargs")
                for kk, vv in d.items:
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        w = self.where
        self.where = (self.files.get(mod.name, mod.name), n.lineno, w[2])
        return self.call(f, args, kw)

    def e_Attribute(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        self.where = (self.files.get(mod.name, mod.name), n.lineno, self.where[2])
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        return self.getitem(o, self.ev_index(n.slice, env, mod))

    def ev_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env, mod)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def e_JoinedStr(self, n, env, mod):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env, mod)
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, env, mod)
                    parts.append(self.tostr(x, conv=v.conversion) if sp in ("", "s") or sp == "d" and isinstance(x, (int, Lin)) else SymStr([("obj", "formatted")]))
                    continue
                parts.append(self.tostr(x, conv=v.conversion))
        return self.mkstr(parts)

    def percent(self, a, b):
        if not isinstance(a, str):
            return SymStr([("obj", "%")])
        args = list(b) if isinstance(b, tuple) else [b]
        parts, i = [], 0
        while i < len(a):
            if a[i] != "%":
                parts.append(a[i])
                i += 1
                continue
            k = a[i + 1:i + 2]
            if k == "%":
                parts.append("%")
            elif k in ("d", "i", "s", "r") and args:
                x = args.pop(0)
                parts.append(self.tostr(x, conv=114 if k == "r" else -1) if k in "sr" or isinstance(x, (int, Lin)) else SymStr([("obj", "%")]))
            else:
                return SymStr([("obj", "%")])
            i += 2
        return self.mkstr(parts)

    def strformat(self, s, args, kw):
        import string
        parts, n = [], 0
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError:
            self.err("ValueError", "format")
        for lit, f, sp, conv in fields:
            if lit:
                parts.append(lit)
            if f is None:
                continue
            if f == "":
                f, n = str(n), n + 1
            root, *attrs = f.split(".")
            if root.isdigit() and int(root) < len(args):
                x = args[int(root)]
            elif root in kw:
                x = kw[root]
            else:
                return SymStr([("obj", "format")])
            for at in attrs:
                x = self.getattr(x, at)
            if sp not in ("", "s") and not (sp == "d" and isinstance(x, (int, Lin))):
                return SymStr([("obj", "format")])
            parts.append(self.tostr(x, conv=114 if conv == "r" else -1))
        return self.mkstr(parts)

    def mkstr(self, parts):
        s = SymStr(parts)
        if not s.parts:
            return ""
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
        return s

    def tostr(self, v, conv=-1):
        if isinstance(v, (str, SymStr)) and conv in (-1, 115):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Lin):
            v = self.c.lin(v)
            return str(v.c) if v.is_const() else SymStr([("num", v)])
        if isinstance(v, Inst):
            for m in (("__repr__",) if conv == 114 else ("__str__", "__repr__")):
                if v.cls.has(m):
                    return self.call_method(v, m, [])
        return SymStr([("obj", repr(type(v).__name__))])

    def comp(self, n, env, mod, fn):
        out = []

        def rec(gi, e):
            if gi == len(n.generators):
                out.append(fn(e))
                return
            g = n.generators[gi]
            for v in self.iterate(self.ev(g.iter, e, mod)):
                e2 = Env(e, e.glob)
                self.assign(g.target, v, e2, mod)
                if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                    rec(gi + 1, e2)
        rec(0, Env(env, env.glob))
        return out

    def e_ListComp(self, n, env, mod):
        return PyList(self.comp(n, env, mod, lambda e: self.ev(n.elt, e, mod)))

    def e_GeneratorExp(self, n, env, mod):
        return PyList(self.comp(n, env, mod, lambda e: self.ev(n.elt, e, mod)))

    def e_SetComp(self, n, env, mod):
        return PyList(self.comp(n, env, mod, lambda e: self.ev(n.elt, e, mod)))

    def e_DictComp(self, n, env, mod):
        return PyDict(self.comp(n, env, mod, lambda e: (self.ev(n.key, e, mod), self.ev(n.value, e, mod))))

    def e_Starred(self, n, env, mod):
        self.un("starred")

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v):
        if isinstance(v, BoolNp):
            return v.b
        if v is None or isinstance(v, (bool, int, str)):
            return bool(v)
        if isinstance(v, Lin):
            return not self.c.lin_eq0(v)
        if isinstance(v, Sc):
            return not self.c.eq0(v.e)
        if isinstance(v, Arr):
            if len(v.els) != 1:
                self.err("ValueError", "truth value of an array is ambiguous")
            return self.truth(self.el_scalar(v, 0))
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PyList):
            return bool(v.v)
        if isinstance(v, PyDict):
            return bool(v.items)
        if isinstance(v, Inst):
            if v.cls.has("__bool__"):
                return self.truth(self.call_method(v, "__bool__", []))
            if v.cls.has("__len__"):
                return self.truth(self.call_method(v, "__len__", []))
            return True
        if isinstance(v, (Func, Cls, Native, EnumMem, Mod, NpMod, Bound, DType)):
            return True
        if isinstance(v, SymStr):
            return True
        self.un("truth value")

    def iterate(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            return list(v.v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PyDict):
            return [k for k, _ in v.items]
        if isinstance(v, Arr):
            if v.nd == 0:
                self.err("TypeError", "iteration over a 0-d array")
            if v.nd >= 2:
                return [row(v, i) for i in range(dims(v)[0])]
            return [self.el_scalar(v, i) for i in range(len(v.els))]
        if isinstance(v, Cls) and any(isinstance(x, EnumMem) for x in v.ns.values()):
            seen = []
            for x in v.ns.values():
                if isinstance(x, EnumMem) and x not in seen:
                    seen.append(x)
            return seen
        if isinstance(v, RangeV):
            return v.items(self)
        if isinstance(v, Inst) and v.cls.has("__iter__"):
            return self.iterate(self.call_method(v, "__iter__", []))
        if isinstance(v, (int, Sc, Lin)) or v is None:
            self.err("TypeError", "not iterable")
        self.un("iteration")

    # ------------------------------------------------------------ calls
    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            if any(isinstance(b, Opaque) and b.what in ("Enum", "IntEnum") for b in f.bases):
                for m in f.ns.values():
                    if isinstance(m, EnumMem) and self.eq(m.value, args[0]) is True:
                        return m
                self.err("ValueError", "enum value")
            o = Inst(f)
            if f.has("__init__"):
                self.call(f.find("__init__"), [o] + args, kw)
            elif args or kw:
                self.err("TypeError", "constructor arguments")
            return o
        if isinstance(f, ExcCls):
            return ExcInst(f.name, args)
        if isinstance(f, DType):
            return self.type_call(f, args, kw)
        if isinstance(f, Inst) and f.cls.has("__call__"):
            return self.call(f.cls.find("__call__"), [f] + args, kw)
        if isinstance(f, (int, Lin, Sc, Arr, str, tuple, PyList)) or f is None:
            self.err("TypeError", "not callable")
        self.un(f"call of {f!r}")

    def call_func(self, f, args, kw):
        key = (f.mod.name, (f.cls.name + "." if f.cls else "") + f.name)
        if key in self.summaries and key not in self.stack:
            r = self.summaries[key](self, f, args, kw)
            if r is not NotImplemented:
                return r
        loc = self.bind(f, args, kw)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            self.un("recursion")
        old = self.where
        self.stack.append(key)
        if self.phase == "run":
            self.c.funcs.add(key[0] + "." + key[1])
        try:
            if isinstance(f.node, ast.Lambda):
                self.where = (old[0], f.node.lineno, f.name)
                return self.ev(f.node.body, loc, f.mod)
            gen = getattr(f.node, "_is_gen", None)
            if gen is None:
                gen = f.node._is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
            if gen:
                self.un("generator function")
            self.where = (self.files.get(f.mod.name), f.node.lineno, key[1])
            try:
                self.run_block(f.node.body, loc, f.mod)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1
            self.where = old

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = Env(f.env if not (f.cls is not None and f.env.d is f.cls.ns) else f.env.up, f.mod.ns)
        got = {}
        args = list(args)
        for n, v in zip(pos, args):
            got[n] = v
        if len(args) > len(pos):
            if a.vararg:
                got[a.vararg.arg] = tuple(args[len(pos):])
            else:
                self.err("TypeError", f"too many arguments to {f.name}")
        elif a.vararg:
            got[a.vararg.arg] = ()
        extra = []
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in got:
                    self.err("TypeError", f"duplicate argument {k}")
                got[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                self.err("TypeError", f"unexpected keyword {k}")
        if a.kwarg:
            got[a.kwarg.arg] = PyDict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in got:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.err("TypeError", f"missing argument {n} of {f.name}")
                got[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in got:
                if x.arg not in f.kwdefaults:
                    self.err("TypeError", "missing kw-only argument")
                got[x.arg] = f.kwdefaults[x.arg]
        env.d.update(got)
        return env

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            v = o.cls.find(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if v is not None:
                if isinstance(v, Func):
                    return Bound(v, o)
                if isinstance(v, ClassM):
                    return Bound(v.fn, o.cls)
                if isinstance(v, StaticM):
                    return v.fn
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                self.un("__dict__")
            self.err("AttributeError", f"{o.cls.name}.{name}")
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            if o.has(name):
                v = o.find(name)
                if isinstance(v, StaticM):
                    return v.fn
                if isinstance(v, ClassM):
                    return Bound(v.fn, o)
                return v
            if name == "__members__":
                return PyDict([(k, v) for k, v in o.ns.items() if isinstance(v, EnumMem)])
            self.err("AttributeError", f"{o.name}.{name}")
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            self.err("AttributeError", f"{o.name}.{name}")
        if isinstance(o, EnumMem):
            if name in ("value", "_value_"):
                return o.value
            if name in ("name", "_name_"):
                return o.name
            v = o.cls.find(name)
            if isinstance(v, Func):
                return Bound(v, o)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if isinstance(v, EnumMem):
                return v
            self.err("AttributeError", name)
        if isinstance(o, NpMod):
            return npattr(self, o, name)
        if isinstance(o, Arr):
            return arr_attr(self, o, name)
        if isinstance(o, Sc):
            return sc_attr(self, o, name)
        if isinstance(o, (int, Lin, bool)) and not isinstance(o, str):
            if name in ("real",):
                return o
            if name == "bit_length" and isinstance(o, int):
                return Native(lambda s, a, k: o.bit_length(), "bit_length")
            self.err("AttributeError", f"int.{name}")
        if isinstance(o, BoolNp):
            if name in ("any", "all"):
                return Native(lambda s, a, k: o, name)
            if name == "astype":
                return Native(lambda s, a, k: Sc("f8" if a[0].k in ("f8", "float") else "i8", int(o.b)) if isinstance(a[0], DType) and a[0].k in ("f8", "float", "int", "i8") else s.un("astype"), name)
            if name == "dtype":
                return DType("b")
        if isinstance(o, (str, SymStr)):
            return str_attr(self, o, name)
        if isinstance(o, PyList):
            return list_attr(self, o, name)
        if isinstance(o, PyDict):
            return dict_attr(self, o, name)
        if isinstance(o, DType):
            if name in ("__name__", "name"):
                return str(o.k)
            if name == "kind":
                return {"f8": "f", "i8": "i", "u8": "u", "O": "O", "b": "b"}.get(o.k, "?")
            if o.k == "int" and name == "from_bytes":
                self.un("int.from_bytes")
        if isinstance(o, tuple):
            if name == "index":
                return Native(lambda s, a, k: next((i for i, x in enumerate(o) if s.eq(x, a[0]) is True), None), "index")
            if name == "count":
                return Native(lambda s, a, k: sum(1 for x in o if s.eq(x, a[0]) is True), "count")
        if isinstance(o, Prop) and name == "setter":
            def st(s, a, k):
                p = Prop(o.fget)
                p.fset = a[0]
                return p
            return Native(st, "setter")
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if hasattr(o, "attrs") and name in o.attrs:
                return o.attrs[name]
        if o is None:
            self.err("AttributeError", f"NoneType.{name}")
        if isinstance(o, Opaque):
            if o.what.startswith("file"):
                return Native(lambda s, a, k: s.c.events.append(("file." + name, a, s.where)), name)
            return Opaque(o.what + "." + name)
        if isinstance(o, Native):
            if name == "__name__":
                return o.name
        self.un(f"attribute {name} of {type(o).__name__}")

    def hasattr(self, o, name):
        if isinstance(o, Arr):
            return True if name in ARRNAMES else self.un("hasattr " + name)
        if isinstance(o, Sc) and o.ty in ("f8", "i8", "u8"):
            return True if name in ARRNAMES else self.un("hasattr " + name)
        if isinstance(o, BoolNp):
            return name in ARRNAMES
        if isinstance(o, (int, Lin, Sc, bool)) or o is None:
            if name in ("__getitem__", "astype", "dtype", "__len__", "__iter__", "shape", "copy", "ndim", "size", "flat"):
                return False
            self.un("hasattr " + name)
        if isinstance(o, (PyList, tuple)):
            return name in ("__getitem__", "__len__", "__iter__") + (("copy", "append") if isinstance(o, PyList) else ())
        if isinstance(o, Inst):
            return name in o.attrs or o.cls.has(name)
        self.un("hasattr")

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, Lin):
            i = self.c.lin(i)
            if i.is_const():
                i = i.c
        if isinstance(o, (tuple, PyList, str)):
            vs = o.v if isinstance(o, PyList) else o
            if isinstance(i, int):
                if not -len(vs) <= i < len(vs):
                    self.err("IndexError")
                return vs[i]
            if isinstance(i, slice):
                if any(x is not None and not isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    self.un("slice")
                r = vs[i]
                return PyList(r) if isinstance(o, PyList) else r
            if isinstance(i, Lin):
                n = len(vs)
                for k in range(n):
                    if self.c.lin_eq0(i - k):
                        return vs[k]
                self.un("symbolic index")
        if isinstance(o, PyDict):
            for k, v in o.items:
                if self.truth(self.eq(k, i)):
                    return v
            self.err("KeyError")
        if isinstance(o, Arr):
            if o.nd == 0:
                if i == () or i is Ellipsis:
                    return self.el_scalar(o, 0)
                self.err("IndexError", "too many indices for 0-d array")
            if o.nd >= 2:
                return self.getnd(o, i)
            if isinstance(i, int):
                if not -len(o.els) <= i < len(o.els):
                    self.err("IndexError")
                return self.el_scalar(o, i)
            if isinstance(i, slice):
                if i == slice(None, None, None):
                    return Arr(None, None, o.nd, buf=o.buf)
                if any(x is not None and not isinstance(x, int) for x in (i.start, i.stop, i.step)):
                    self.un("array slice")
                return view(Arr(o.els[i], o.dtype, 1, tag=o.buf.tag))
            if i is Ellipsis:
                return Arr(None, None, o.nd, buf=o.buf)
            if isinstance(i, Arr) and i.dtype == "b":
                return Arr([x for x, b in zip(o.els, i.els) if b], o.dtype, 1)
            return self.getnd(o, i)
        if isinstance(o, Cls):
            if isinstance(o.ns.get(i), EnumMem):
                return o.ns[i]
            self.err("KeyError")
        if isinstance(o, Inst) and o.cls.has("__getitem__"):
            return self.call_method(o, "__getitem__", [i])
        if isinstance(o, (Lin, Sc, int)) or o is None:
            if isinstance(o, Sc) and o.ty in ("f8", "i8") and i == ():
                return o
            self.err("TypeError", "not subscriptable")
        if isinstance(o, (Opaque, NpMod, DType)):
            return Opaque("subscript")
        self.un("subscript")

    # ------------------------------------------------------------ scalars / arrays
    def el_scalar(self, a, i):
        x = a.els[i]
        if x is None and a.dtype != "O":
            self.un("element of an array that is not initialised")
        if a.dtype == "O" or a.dtype == "lin":
            return x
        if a.dtype == "b":
            return BoolNp(x)
        return Sc(a.dtype, x)

    def to_el(self, v, dtype):
        """Store scalar v in an array of dtype."""
        if dtype == "O":
            if isinstance(v, BoolNp):
                return v.b
            return v
        if dtype == "lin":
            return v
        if dtype == "b":
            return self.truth(v)
        if isinstance(v, Lin) and not self.c.lin(v).is_const():
            self.un("format value stored as data")
        ty, e = self.num(v)
        if dtype in ("i8", "u8") and ty in ("float", "f8"):
            e = self.trunc(e)
        if dtype in ("f8",):
            e = self.c.fl(e, self.loc(), getattr(dtype, "p", 53))
        if dtype in ("i8", "u8"):
            self.chkint(e, dtype)
        if isinstance(dtype, Via):
            self.c.soft = f"dtype {dtype.real} {self.loc()}"
        return e

    def loc(self):
        return f"({os.path.basename(str(self.where[0]))}:{self.where[1]})"

    def chkint(self, e, dtype):
        b = getattr(dtype, "bits", 64)
        lo, hi = (Expr.const(-2 ** (b - 1)), Expr.const(2 ** (b - 1) - 1)) if dtype == "i8" else (Expr.const(0), Expr.const(2 ** b - 1))
        if self.c.decide(self.c.norm(e - lo)) and self.c.decide(self.c.norm(hi - e)):
            return
        self.err("OverflowError", "fixed-width integer overflow (wraps silently)")

    def cast_el(self, x, frm, to):
        if frm == to and not isinstance(to, Via):
            return x
        a = Arr([x], frm, 1)
        v = self.el_scalar(a, 0)
        if to == "O" and isinstance(v, Sc) and v.ty in ("f8", "i8", "u8"):
            v = Sc("float" if v.ty == "f8" else "int", v.e)
        return self.to_el(v, to)

    def num(self, v):
        """scalar -> (type, Expr)"""
        if isinstance(v, BoolNp):
            return "bool", Expr.const(int(v.b))
        if isinstance(v, bool):
            return "bool", Expr.const(int(v))
        if isinstance(v, int):
            return "int", Expr.const(v)
        if isinstance(v, Lin):
            v = self.c.lin(v)
            if v.is_const():
                return "int", Expr.const(v.c)
            return "int", self.lin_as_data(v)
        if isinstance(v, Sc):
            return v.ty, v.e
        if isinstance(v, Special):
            self.un("non-finite value")
        self.un(f"number expected, got {type(v).__name__}")

    def lin_as_data(self, L):
        self.un("format field used as data value")

    def trunc(self, e):
        e = self.c.norm(e)
        if self.c.decide(e):
            return self.c.floor1(self.c.norm(e))
        return -self.c.floor1(-self.c.norm(e))

    def isnumeric(self, v):
        return isinstance(v, (int, Lin, Sc, bool, BoolNp, Special))

    def getnd(self, o, i):
        if i is Ellipsis or isinstance(i, slice) and i == slice(None, None, None):
            return Arr(None, None, o.nd, buf=o.buf)
        if isinstance(i, Arr) and i.dtype == "b" and dims(i) == dims(o):
            return Arr([x for x, b in zip(o.els, i.els) if b], o.dtype, 1)
        if isinstance(i, (Arr, PyList)) and not (isinstance(i, Arr) and i.dtype not in ("lin", "i8", "O")):
            # integer array index: a copy
            ix = i if isinstance(i, Arr) else self.to_arr(i)
            if ix.dtype == "b" or len(dims(ix)) != 1 or len(dims(o)) != 1 or not dims(ix)[0]:
                self.un("array index")
            pos = [bidx(self, dims(o), self.el_scalar(ix, j))[0][0] for j in range(len(ix.els))]
            return Arr([o.els[p] for p in pos], o.dtype, 1)
        if isinstance(i, Arr):
            self.un("array index")
        pos, d = bidx(self, dims(o), i)
        r = view(Arr([o.els[p] for p in pos], o.dtype, mknd(d), tag=o.buf.tag))
        if d == () and not (isinstance(i, tuple) and Ellipsis in i):
            return self.el_scalar(r, 0)
        return r

    def to_arr(self, v, dtype=None):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (PyList, tuple)):
            its = self.iterate(v)
            if not its:
                return Arr([], dtype or "f8", 1)
            if all(isinstance(x, (Arr, PyList)) for x in its):
                its = [self.to_arr(x, dtype) for x in its]
                if len({dims(x) for x in its}) != 1:
                    self.un("stacking arrays")
                dt = dtype or self.common([x.dtype for x in its])
                return Arr([self.cast_el(e, x.dtype, dt) for x in its for e in x.els], dt, mknd((len(its),) + dims(its[0])))
            if all(isinstance(x, Inst) for x in its):
                return Arr(list(its), "O", 1)
            dt = dtype or self.common([self.dt_of(x) for x in its])
            return Arr([self.to_el(x, dt) for x in its], dt, 1)
        if isinstance(v, (Inst, EnumMem, str, SymStr)) or v is None:
            return Arr([v], "O", 0)
        dt = dtype or self.dt_of(v)
        return Arr([self.to_el(v, dt)], dt, 0)

    def dt_of(self, v):
        if isinstance(v, Arr):
            return v.dtype
        if isinstance(v, (bool, BoolNp)):
            return "b"
        if isinstance(v, int):
            return "i8" if -2 ** 63 <= v < 2 ** 63 else "O"
        if isinstance(v, Lin):
            if self.c.lin(v).is_const():
                return self.dt_of(self.c.lin(v).c)
            return "lin"
        if isinstance(v, Sc):
            if v.ty == "int":
                e = self.c.norm(v.e)
                if self.c.decide(e + 2 ** 63) and self.c.decide(Expr.const(2 ** 63 - 1) - self.c.norm(e)):
                    return "i8"
                return "O"
            return {"float": "f8"}.get(v.ty, v.ty)
        if isinstance(v, (Inst, EnumMem)):
            return "O"
        self.un("dtype of " + type(v).__name__)

    def common(self, dts):
        if "O" in dts:
            return "O"
        if "lin" in dts:
            return "lin"
        if "f8" in dts:
            return "f8"
        if "i8" in dts and "u8" in dts:
            return "f8"
        for d in ("u8", "i8"):
            if d in dts:
                return d
        return "b"

    def result_dtype(self, vals):
        """numpy (NEP 50) promotion of arrays / numpy scalars / weak Python scalars."""
        strong, weak = [], []
        for v in vals:
            if isinstance(v, Arr):
                strong.append(v.dtype)
            elif isinstance(v, Sc) and v.ty in ("f8", "i8", "u8"):
                strong.append(v.ty)
            elif isinstance(v, BoolNp):
                strong.append("b")
            elif isinstance(v, bool):
                weak.append("b")
            elif isinstance(v, (int, Lin)) or isinstance(v, Sc) and v.ty == "int":
                weak.append("int")
            elif isinstance(v, Sc) and v.ty == "float":
                weak.append("float")
            elif isinstance(v, (Inst, EnumMem)) or v is None:
                return "O"
            else:
                self.un("operand type " + type(v).__name__)
        if not strong:
            if "float" in weak:
                return "f8"
            if "int" in weak:
                return self.common([self.dt_of(v) for v in vals])
            return "b"
        dt = self.common(strong)
        if dt == "O":
            return "O"
        if dt == "lin":
            return "f8" if "float" in weak else "lin"
        if "float" in weak and dt in ("b", "i8", "u8"):
            return "f8"
        if "int" in weak and dt == "b":
            return "i8"
        return dt

    def wrap(self, scs, dtype, nd):
        """list of result scalars -> array or scalar"""
        els = [self.to_el(x, dtype) for x in scs]
        if nd == 0:
            a = Arr(els, dtype, 0)
            return self.el_scalar(a, 0)
        return Arr(els, dtype, nd)

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, Inst) or isinstance(b, Inst):
            n = {"Add": "add", "Sub": "sub", "Mult": "mul", "LShift": "lshift", "RShift": "rshift",
                 "Mod": "mod", "Div": "truediv", "FloorDiv": "floordiv", "Pow": "pow", "BitAnd": "and",
                 "BitOr": "or", "BitXor": "xor"}.get(o)
            if isinstance(a, Inst) and a.cls.has(f"__{n}__"):
                return self.call_method(a, f"__{n}__", [b])
            if isinstance(b, Inst) and b.cls.has(f"__r{n}__"):
                return self.call_method(b, f"__r{n}__", [a])
            self.err("TypeError", f"unsupported operand {o}")
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if o == "Add":
                if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
                    self.err("TypeError", "str +")
                return self.mkstr([a, b])
            if o == "Mod":
                return self.percent(a, b)
            self.un("string operator")
        if isinstance(a, tuple) and isinstance(b, tuple) and o == "Add":
            return a + b
        if isinstance(a, PyList) and isinstance(b, PyList) and o == "Add":
            return PyList(a.v + b.v)
        if isinstance(a, (tuple, PyList)) and isinstance(b, int) and o == "Mult":
            return PyList(a.v * b) if isinstance(a, PyList) else a * b
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (PyList, tuple)):
                a = self.to_arr(a)
            if isinstance(b, (PyList, tuple)):
                b = self.to_arr(b)
            return self.arr_binop(op, a, b)
        if a is None or b is None:
            self.err("TypeError", "None operand")
        return self.sc_binop(op, a, b)

    def bcast2(self, a, b):
        xs, nd = bca(self, [x for x in (a, b) if isinstance(x, Arr)])
        return (xs[0] if isinstance(a, Arr) else a), (xs[-1] if isinstance(b, Arr) else b), nd

    def arr_binop(self, op, a, b):
        dt = self.result_dtype([a, b])
        if type(op).__name__ == "Div" and dt in ("i8", "u8", "b"):
            dt = "f8"
        if type(op).__name__ == "Pow" and dt == "lin":
            dt = "f8" if isinstance(a, Sc) and a.ty in ("float", "f8") else "i8"
        a, b, nd = self.bcast2(a, b)
        n = max(len(x.els) for x in (a, b) if isinstance(x, Arr))
        out = []
        for i in range(n):
            xs = []
            for v in (a, b):
                if isinstance(v, Arr):
                    if len(v.els) not in (1, n):
                        self.err("ValueError", "shape mismatch")
                    x = self.el_scalar(v, i if len(v.els) > 1 else 0)
                else:
                    x = v
                if dt == "f8" and not isinstance(x, Lin) and type(op).__name__ != "Pow":
                    x = Sc("f8", self.to_el(x, "f8"))
                if dt == "O" and not (isinstance(v, Arr) and v.dtype == "O"):
                    # numpy converts the operand to an object array: Python scalars
                    if isinstance(x, Sc) and x.ty in ("f8", "i8", "u8"):
                        x = Sc("float" if x.ty == "f8" else "int", x.e)
                    elif isinstance(x, BoolNp):
                        x = x.b
                xs.append(x)
            r = self.sc_binop(op, xs[0], xs[1])
            out.append(r)
        if dt != "O":
            # bool arithmetic
            if dt == "b" and type(op).__name__ in ("BitAnd", "BitOr", "BitXor"):
                pass
            elif dt == "b":
                dt = "i8" if type(op).__name__ not in ("Add", "Mult") else "b"
        return self.wrap(out, dt, nd)

    def sc_binop(self, op, a, b):
        o = type(op).__name__
        # integers over parameters
        if isinstance(a, BoolNp):
            if isinstance(b, (BoolNp, bool)) and o in ("BitAnd", "BitOr", "BitXor"):
                x, y = a.b, self.truth(b)
                return BoolNp(x and y if o == "BitAnd" else x or y if o == "BitOr" else x != y)
            a = Sc("i8", int(a.b))
        if isinstance(b, BoolNp):
            if isinstance(a, bool) and o in ("BitAnd", "BitOr", "BitXor"):
                x, y = a, b.b
                return BoolNp(x and y if o == "BitAnd" else x or y if o == "BitOr" else x != y)
            b = Sc("i8", int(b.b))
        if isinstance(a, bool) and isinstance(b, bool) and o in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[o]
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            r = self.lin_binop(o, a, b)
            if r is not None:
                return r
        if o == "Pow":
            return self.power(a, b)
        ta, ea = None, None
        if isinstance(a, Lin) and not self.c.lin(a).is_const() and o in ("Mult",) and False:
            pass
        if o in ("LShift", "RShift") and isinstance(b, (Lin, int)):
            ta, ea = self.num(a)
            if ta in ("float", "f8"):
                self.err("TypeError", "shift of float")
            L = Lin.of(b)
            if not self.c.decide_lin(L):
                if ta in ("int", "bool"):
                    self.err("ValueError", "negative shift count")
                self.un("negative shift of fixed-width integer")
            L = self.c.lin(L)
            e = self.c.norm(ea)
            r = e.shift(L) if o == "LShift" else self.c.floor_div(e, L)
            return self.mk("int" if ta in ("int", "bool") else ta, r)
        ta, ea = self.num(a)
        tb, eb = self.num(b)
        ty = self.sc_type(ta, tb, o)
        isf = ty in ("float", "f8")
        c = self.c
        if o in ("Add", "Sub", "Mult"):
            if isf:
                ea, eb = self.asf(ea, ta), self.asf(eb, tb)
            r = ea + eb if o == "Add" else ea - eb if o == "Sub" else ea * eb
            r = c.norm(r)
            return self.mk(ty, c.fl(r, self.loc()) if isf else r)
        if o in ("Div", "FloorDiv", "Mod"):
            eb = c.norm(eb)
            if c.is_zero(eb) is True:
                self.err("ZeroDivisionError")
            p = eb.as_pow2()
            if p is None or p[0] not in (1, -1):
                ca, cb = c.norm(ea).as_const(), eb.as_const()
                if ca is not None and cb is not None:
                    q = ca / cb
                    if o == "Div":
                        if _dyadic(q):
                            return self.mk(ty, c.fl(Expr.const(q), self.loc()))
                        self.un("inexact constant division")
                    fl = Fraction(q.numerator // q.denominator)
                    return self.mk(ty, Expr.const(fl if o == "FloorDiv" else ca - cb * fl))
                self.un(f"{o} by a non-power-of-two")
            sg, L = p
            if isf:
                ea = self.asf(ea, ta)
            q = c.norm(ea).shift(-L) * sg
            if o == "Div":
                return self.mk(ty, c.fl(q, self.loc()))
            f = c.floor1(q)
            if o == "FloorDiv":
                return self.mk(ty, f)
            r = c.norm(c.norm(ea) - c.norm(eb) * f)
            return self.mk(ty, c.fl(r, self.loc()) if isf else r)
        if o == "BitAnd":
            for x, m in ((ea, eb), (eb, ea)):
                m = c.norm(m)
                p = c.norm(m + 1).as_pow2()
                if p and p[0] == 1:
                    return self.mk(ty, c.mod_pow2(c.norm(x), p[1]))
                p = m.as_pow2()
                if p and p[0] == 1:
                    t = c.floor_div(c.norm(x), p[1])
                    return self.mk(ty, c.mod_pow2(t, Lin(1)).shift(c.lin(p[1])))
            self.un("bitwise and")
        if o in ("BitOr", "BitXor"):
            ca, cb = c.norm(ea).as_const(), c.norm(eb).as_const()
            if ca is not None and cb is not None:
                return self.mk(ty, Expr.const(int(ca) | int(cb) if o == "BitOr" else int(ca) ^ int(cb)))
            self.un("bitwise or")
        if o in ("LShift", "RShift"):
            cb = c.norm(eb).as_const()
            if cb is not None:
                return self.sc_binop(op, a, int(cb))
            self.un("shift by data")
        self.un("operator " + o)

    def asf(self, e, t):
        """operand conversion to double"""
        if t in ("float", "f8"):
            return e
        return self.c.fl(e, self.loc())

    def mk(self, ty, e):
        if ty in ("int", "bool"):
            cst = e.as_const()
            if cst is not None and cst.denominator == 1:
                return int(cst)
            return Sc("int", e)
        if ty in ("i8", "u8"):
            self.chkint(e, ty)
        return Sc(ty, e)

    def sc_type(self, ta, tb, o):
        ts = {ta, tb}
        if "f8" in ts:
            return "f8"
        if "float" in ts:
            return "f8" if ts & {"i8", "u8"} else "float"
        if o == "Div":
            return "f8" if ts & {"i8", "u8"} else "float"
        if "i8" in ts and "u8" in ts:
            return "f8"
        if "i8" in ts:
            return "i8"
        if "u8" in ts:
            return "u8"
        return "int"

    def lin_binop(self, o, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                if o == "Add":
                    return a + b
                if o == "Sub":
                    return a - b
                if o == "Mult":
                    return a * b
                if o == "FloorDiv":
                    return a // b
                if o == "Mod":
                    return a % b
                if o == "LShift":
                    return a << b
                if o == "RShift":
                    return a >> b
                if o == "BitAnd":
                    return a & b
                if o == "BitOr":
                    return a | b
                if o == "BitXor":
                    return a ^ b
            except ZeroDivisionError:
                self.err("ZeroDivisionError")
            except ValueError:
                self.err("ValueError")
            if o == "Pow" and b >= 0 and b < 5000:
                return a ** b
            return None
        a, b = self.c.lin(Lin.of(a)), self.c.lin(Lin.of(b))
        if o == "Add":
            return a + b
        if o == "Sub":
            return a - b
        if o == "Mult":
            if a.is_const():
                return b * a.c
            if b.is_const():
                return a * b.c
            # e.g. S * I with S in {0,1}: enumerate a small factor
            for x, y in ((a, b), (b, a)):
                lo, hi = self.c.P.rng(x)
                if hi - lo <= 2:
                    for k in range(int(lo), int(hi) + 1):
                        if self.c.lin_eq0(x - k):
                            return self.c.lin(y) * k
            self.un("product of format fields")
        if o == "FloorDiv" and b.is_const() and b.c > 0:
            v = self.c.fresh("fd")
            self.c.P = self.c.P.add_var(v)
            q = Lin.var(v)
            self.c.add_lin(a - q * b.c)
            self.c.add_lin(q * b.c + (b.c - 1) - a)
            return self.c.lin(q)
        if o == "Mod" and b.is_const() and b.c > 0:
            q = self.lin_binop("FloorDiv", a, b)
            return a - self.c.lin(Lin.of(q)) * b.c
        if o == "LShift" and a.is_const() and a.c >= 0:
            if not self.c.decide_lin(b):
                self.err("ValueError")
            return self.mk("int", Expr.pow2(self.c.lin(b), a.c))
        return None

    def power(self, a, b):
        tb = None
        if isinstance(b, (int, Lin)):
            L = self.c.lin(Lin.of(b))
        elif isinstance(b, Sc):
            k = self.c.norm(b.e).as_const()
            if k is None or k.denominator != 1:
                self.un("power")
            L = Lin(int(k))
            tb = b.ty
        else:
            self.un("power")
        if isinstance(a, (int,)) and not isinstance(a, bool) and a >= 1 and (a & (a - 1)) == 0:
            base = a.bit_length() - 1
            if tb in ("float", "f8"):
                return Sc(tb, Expr.pow2(L * base))
            if tb in ("i8",):
                return self.mk("i8", Expr.pow2(L * base))
            if self.c.decide_lin(L):
                return self.mk("int", Expr.pow2(self.c.lin(L) * base))
            return Sc("float", Expr.pow2(self.c.lin(L) * base))
        if isinstance(a, Sc):
            p = self.c.norm(a.e).as_pow2()
            if p and p[0] == 1 and p[1].is_const():
                if a.ty in ("float", "f8"):
                    return Sc(a.ty if tb != "f8" else "f8", Expr.pow2(L * p[1].c))
            if L.is_const() and 0 <= L.c <= 3:
                r = 1
                for _ in range(L.c):
                    r = self.sc_binop(ast.Mult(), r, a)
                return r
        if isinstance(a, int) and L.is_const() and L.c >= 0:
            return a ** L.c
        self.un("power")

    # ------------------------------------------------------------ comparisons
    def eq(self, a, b):
        r = self.compare(ast.Eq(), a, b)
        return r

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            r = self.same(a, b)
            return r if o == "Is" else not r
        if o in ("In", "NotIn"):
            if isinstance(b, (str, SymStr)):
                if isinstance(a, str) and isinstance(b, str):
                    r = a in b
                else:
                    self.un("substring test")
            else:
                its = [k for k, _ in b.items] if isinstance(b, PyDict) else self.iterate(b)
                r = any(self.same(a, x) or self.truth(self.eq(a, x)) for x in its)
            return r if o == "In" else not r
        if isinstance(a, Inst) or isinstance(b, Inst):
            nm = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[o]
            rf = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[nm]
            if isinstance(a, Inst) and a.cls.has(f"__{nm}__"):
                r = self.call_method(a, f"__{nm}__", [b])
                if not (isinstance(r, Opaque) and r.what == "NotImplemented"):
                    return r
            if isinstance(b, Inst) and b.cls.has(f"__{rf}__"):
                r = self.call_method(b, f"__{rf}__", [a])
                if not (isinstance(r, Opaque) and r.what == "NotImplemented"):
                    return r
            if nm == "ne" and isinstance(a, Inst) and a.cls.has("__eq__"):
                r = self.call_method(a, "__eq__", [b])
                return (not self.truth(r)) if not isinstance(r, Arr) else Arr([not x for x in r.els], "b", r.nd)
            if nm == "eq":
                return a is b
            if nm == "ne":
                return a is not b
            self.err("TypeError", "comparison")
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (Inst,)) or a is None or b is None:
                return o == "NotEq"
            if isinstance(a, (PyList, tuple)):
                a = self.to_arr(a)
            if isinstance(b, (PyList, tuple)):
                b = self.to_arr(b)
            a, b, nd = self.bcast2(a, b)
            n = max(len(x.els) for x in (a, b) if isinstance(x, Arr))
            out = []
            for i in range(n):
                x = self.el_scalar(a, i if len(a.els) > 1 else 0) if isinstance(a, Arr) else a
                y = self.el_scalar(b, i if len(b.els) > 1 else 0) if isinstance(b, Arr) else b
                out.append(self.truth(self.sc_compare(o, x, y)))
            return Arr(out, "b", nd) if nd else BoolNp(out[0])
        return self.sc_compare(o, a, b)

    def same(self, a, b):
        if isinstance(a, SymMem) or isinstance(b, SymMem):
            a, b = (a, b) if isinstance(a, SymMem) else (b, a)
            return a.is_(b) if isinstance(b, EnumMem) else False
        if isinstance(a, (bool, type(None), EnumMem, Inst, Cls, str)) or \
                isinstance(b, (bool, type(None), EnumMem, Inst, Cls, str)):
            return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
        if isinstance(a, DType) and isinstance(b, DType):
            return a.k == b.k
        if isinstance(a, (Arr, PyList, PyDict)) or isinstance(b, (Arr, PyList, PyDict)):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        self.un("identity test")

    def sc_compare(self, o, a, b):
        neg = {"NotEq": "Eq", "Lt": "GtE", "Gt": "LtE"}
        if isinstance(a, DType) or isinstance(b, DType) or isinstance(a, str) and isinstance(b, DType):
            ka, kb = dkey(a), dkey(b)
            r = ka == kb
            return r if o == "Eq" else not r
        if isinstance(a, (EnumMem, Cls, ExcCls, Func, Native)) or isinstance(b, (EnumMem, Cls, ExcCls, Func, Native)) \
                or a is None or b is None:
            if o in ("Eq", "NotEq"):
                return self.same(a, b) == (o == "Eq")
            self.err("TypeError", "ordering")
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if isinstance(a, str) and isinstance(b, str):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[o]
            if isinstance(a, (str, SymStr)) != isinstance(b, (str, SymStr)):
                return o == "NotEq"
            self.un("string comparison")
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return o == "NotEq"
            x, y = self.iterate(a), self.iterate(b)
            if o in ("Eq", "NotEq"):
                r = len(x) == len(y) and all(self.truth(self.eq(p, q)) for p, q in zip(x, y))
                return r if o == "Eq" else not r
            self.un("sequence ordering")
        if isinstance(a, (tuple, PyList, PyDict)) or isinstance(b, (tuple, PyList, PyDict)):
            return o == "NotEq"
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            self.un("comparison of opaque value")
        if isinstance(a, Special) or isinstance(b, Special):
            return self.special_cmp(o, a, b)
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            d = Lin.of(a) - Lin.of(b)
            c = self.c
            if o == "Eq":
                return c.lin_eq0(d)
            if o == "NotEq":
                return not c.lin_eq0(d)
            if o == "GtE":
                return c.decide_lin(d)
            if o == "Lt":
                return not c.decide_lin(d)
            if o == "LtE":
                return c.decide_lin(-d)
            return not c.decide_lin(-d)
        _, ea = self.num(a)
        _, eb = self.num(b)
        d = self.c.norm(ea - eb)
        c = self.c
        if o == "Eq":
            return c.eq0(d)
        if o == "NotEq":
            return not c.eq0(d)
        if o == "GtE":
            return c.decide(d)
        if o == "Gt":
            return c.decide(d, True)
        if o == "LtE":
            return c.decide(-d)
        return c.decide(-d, True)

    def special_cmp(self, o, a, b):
        val = lambda x: float(x.name) if isinstance(x, Special) else 0.0
        x, y = val(a), val(b)
        return {"Eq": x == y and isinstance(a, Special) and isinstance(b, Special), "NotEq": x != y,
                "Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[o]

    # ------------------------------------------------------------ type objects
    def type_call(self, t, args, kw):
        k = t.k
        if k in ("int",):
            if not args:
                return 0
            v = args[0]
            if isinstance(v, Arr):
                if len(v.els) != 1:
                    self.err("TypeError", "only length-1 arrays")
                v = self.el_scalar(v, 0)
            if isinstance(v, BoolNp):
                return int(v.b)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, (int, Lin)):
                return v
            if isinstance(v, Sc):
                if v.ty in ("int", "i8", "u8"):
                    return self.mk("int", v.e)
                return self.mk("int", self.trunc(v.e))
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    self.err("ValueError")
            self.un("int()")
        if k in ("float", "f8"):
            v = args[0] if args else 0
            if isinstance(v, Arr):
                if k == "f8" and v.nd:
                    return astype(self, v, "f8")
                v = self.el_scalar(v, 0)
            if isinstance(v, str):
                return Special(v) if v.strip("+-").lower() in ("inf", "nan") else Sc("float", Expr.const(Fraction(v)))
            _, e = self.num(v)
            return Sc("float" if k == "float" else "f8", self.c.fl(e, self.loc()))
        if k in VIA:
            v = args[0]
            if isinstance(v, Arr):
                return astype(self, v, VIA[k])
            return Sc(str.__str__(VIA[k]), self.to_el(v, VIA[k]))
        if k in ("i8", "u8"):
            v = args[0]
            if isinstance(v, (int, Lin)):
                return v
            ty, e = self.num(v)
            e = self.trunc(e) if ty in ("float", "f8") else e
            return self.mk(k, e)
        if k in ("bool", "b"):
            return self.truth(args[0]) if args else False
        if k == "str":
            return self.tostr(args[0]) if args else ""
        if k == "list":
            return PyList(self.iterate(args[0])) if args else PyList([])
        if k == "tuple":
            return tuple(self.iterate(args[0])) if args else ()
        if k == "set":
            return PyList(self.iterate(args[0])) if args else PyList([])
        if k == "dict":
            d = PyDict()
            if args and isinstance(args[0], PyDict):
                d.items = list(args[0].items)
            elif args:
                for kv in self.iterate(args[0]):
                    a, b = self.iterate(kv)
                    d.items.append((a, b))
            d.items.extend(kw.items())
            return d
        if k == "dtype":
            return args[0] if isinstance(args[0], DType) else DType(dkey(args[0]))
        if k == "ndarray":
            self.un("ndarray()")
        if k == "type":
            return type_of(self, args[0])
        if k == "Ocls":
            return Opaque("object")
        self.un("type call " + str(k))


def _dyadic(q):
    d = q.denominator
    return d & (d - 1) == 0


class BoolNp:
    """numpy.bool scalar"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bool(b)

    def __repr__(self):
        return f"np.{self.b}"


class RangeV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def items(self, I):
        a, b, s = self.a, self.b, self.s
        if isinstance(s, Lin) and s.is_const():
            s = s.c
        if not isinstance(s, int):
            I.un("range step")
        out = []
        i = a
        n = 0
        while True:
            d = Lin.of(b) - Lin.of(i)
            if s > 0:
                more = I.c.decide_lin(d - 1)
            else:
                more = I.c.decide_lin(-d - 1)
            if not more:
                return out
            out.append(i)
            i = I.lin_binop("Add", i, s)
            n += 1
            if n > 24 and (isinstance(b, Lin) or isinstance(a, Lin)):
                I.un("symbolic loop bound")
            if n > 4000:
                I.un("loop bound")


TYPES = {"int": DType("int"), "float": DType("float"), "bool": DType("bool"), "str": DType("str"),
         "list": DType("list"), "tuple": DType("tuple"), "dict": DType("dict"), "set": DType("set"),
         "object": DType("Ocls"), "type": DType("type"), "complex": DType("complex"), "bytes": DType("bytes"),
         "frozenset": DType("set")}

DK = {"int": "i8", "float": "f8", "bool": "b", "Ocls": "O", "object": "O", "O": "O", "float64": "f8", "int64": "i8",
      "uint64": "u8", "f8": "f8", "i8": "i8", "u8": "u8", "b": "b", "double": "f8", "d": "f8", "int_": "i8",
      "bool_": "b", "uint8": "u1", "uint32": "u4", "int32": "i4", "float32": "f4", "uint16": "u2", "int16": "i2", "int8": "i1", "float16": "f2", "half": "f2",
      "single": "f4"}


def dkey(v):
    if isinstance(v, DType):
        return DK.get(v.k, v.k)
    if isinstance(v, str):
        return DK.get(v, v)
    return None


def dt_arg(I, v):
    if v is None:
        return None
    k = dkey(v)
    k = VIA.get(k, k)
    if k not in ("f8", "i8", "u8", "O", "b"):
        I.un(f"dtype {v!r}")
    return k


def astype(I, a, k):
    out = []
    for x in a.els:
        out.append(I.cast_el(x, a.dtype, k))
    return Arr(out, k, a.nd)


def type_of(I, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, EnumMem):
        return v.cls
    if isinstance(v, bool):
        return TYPES["bool"]
    if isinstance(v, (int, Lin)):
        return TYPES["int"]
    if isinstance(v, Sc):
        return {"int": TYPES["int"], "float": TYPES["float"]}.get(v.ty, DType(v.ty))
    if isinstance(v, Arr):
        return DType("ndarray")
    if isinstance(v, PyList):
        return TYPES["list"]
    if isinstance(v, tuple):
        return TYPES["tuple"]
    if isinstance(v, str):
        return TYPES["str"]
    return Opaque("type")


def isinst(I, v, t):
    if isinstance(t, tuple):
        return any(isinst(I, v, x) for x in t)
    if isinstance(t, Cls):
        if isinstance(v, Inst):
            return t in v.cls.mro()
        if isinstance(v, EnumMem):
            return t in v.cls.mro()
        return False
    if isinstance(t, ExcCls):
        return isinstance(v, ExcInst) and exc_isa(v.name, t.name)
    if isinstance(t, Opaque):
        if t.what in ("Enum",):
            return isinstance(v, EnumMem)
        if t.what.startswith("np.") or t.what.startswith("numbers."):
            n = t.what.split(".")[1]
            if n in ("generic", "number"):
                return isinstance(v, Sc) and v.ty in ("f8", "i8", "u8") or isinstance(v, BoolNp) and n == "generic"
            if n in ("integer",):
                return isinstance(v, Sc) and v.ty in ("i8", "u8")
            if n == "floating":
                return isinstance(v, Sc) and v.ty == "f8"
            if n == "Integral":
                return isinstance(v, (int, Lin)) or isinstance(v, Sc) and v.ty in ("int", "i8", "u8")
            if n in ("Real", "Number"):
                return isinstance(v, (int, Lin, Sc))
        I.un("isinstance of " + t.what)
    if isinstance(t, DType):
        k = t.k
        if k == "int":
            return isinstance(v, (int, Lin)) or isinstance(v, Sc) and v.ty == "int"
        if k == "float":
            return isinstance(v, Sc) and v.ty in ("float", "f8") or isinstance(v, Special)
        if k == "f8":
            return isinstance(v, Sc) and v.ty == "f8"
        if k in ("i8", "u8"):
            return isinstance(v, Sc) and v.ty == k
        if k == "bool":
            return isinstance(v, bool)
        if k == "b":
            return isinstance(v, BoolNp)
        if k == "str":
            return isinstance(v, (str, SymStr))
        if k == "list":
            return isinstance(v, PyList)
        if k == "tuple":
            return isinstance(v, tuple)
        if k == "dict":
            return isinstance(v, PyDict)
        if k == "ndarray":
            return isinstance(v, Arr)
        if k == "Ocls":
            return True
        if k in ("complex", "bytes", "set"):
            return False
    I.un("isinstance")


from pynp import BUILTINS, npattr, arr_attr, sc_attr, str_attr, list_attr, dict_attr, ARRNAMES  # noqa: E402
