"""C19: the MATLAB wrappers.  Each wrapper is evaluated symbolically (arguments are symbols, calls into Python are terms) for
every number of arguments its Python counterpart accepts and for every orientation of the first argument; the resulting term
must be the documented call.  wide.m is evaluated on concrete formats with symbolic 64-bit words."""
import ast
import glob
import os
import matlab
from num import Undecided
from pylib import Missing
from ob import Direct

DIR = "bittrue/models/matlab"
PYF = "bittrue/models/python/en_cl_fix_pkg"


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


class Bad(Exception):
    def __init__(self, what, line=0):
        self.what, self.line = what, line


class MRet(Exception):
    pass


class MRaise(Exception):
    pass


class MBrk(Exception):
    pass


class MCont(Exception):
    pass


def load(name):
    p = os.path.join(repo(), DIR, name + ".m")
    if not os.path.exists(p):
        return None
    try:
        return matlab.parse(p)
    except (matlab.MErr, ValueError, IndexError) as e:
        raise Undecided(f"{name}.m: {e}")


def py_sigs():
    """name -> [(parameter, has default)] of the functions of the Python package"""
    out = {}
    for fn in ("en_cl_fix.py", "matlab_interface.py"):
        p = os.path.join(repo(), PYF, fn)
        if not os.path.exists(p):
            raise Missing(p)
        for st in ast.parse(open(p).read()).body:
            if isinstance(st, ast.FunctionDef):
                ps = [a.arg for a in st.args.args]
                nd = len(st.args.defaults)
                out[st.name] = [(a, i >= len(ps) - nd) for i, a in enumerate(ps)] + ([("*", True)] if st.args.vararg else [])
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, (ast.Attribute, ast.Name)):
                out.setdefault(st.targets[0].id, None)
    return out


# ------------------------------------------------------------------------------------------------ evaluation
class Ev:
    PRIM = {"mat2py", "py2mat"}

    def __init__(self, world, pre, width, prim=()):
        self.world, self.pre, self.width, self.n = world, pre, width, 0
        self.opaque = []
        self.depth = 0
        self.prim = set(prim)

    def choose(self, n, why):
        if self.n < len(self.pre):
            r = self.pre[self.n]
        else:
            r = 0
            self.pre.append(0)
            self.width.append(n)
        self.n += 1
        self.opaque.append((why, r))
        return r

    def run(self, f, args, nout=1):
        self.depth += 1
        if self.depth > 20:
            raise Undecided("recursion")
        env = {}
        ins = f["ins"]
        if ins and ins[-1] == "varargin":
            for n, a in zip(ins[:-1], args):
                env[n] = a
            env["varargin"] = ("cell", list(args[len(ins) - 1:]))
        else:
            if len(args) > len(ins):
                raise MRaise(f"too many arguments of {f['name']}")
            for n, a in zip(ins, args):
                env[n] = a
        env["__nargin"] = len(args)
        try:
            self.block(f["body"], env)
        except MRet:
            pass
        self.depth -= 1
        outs = []
        for o in f["outs"]:
            outs.append(env.get(o, ("unset", o)))
        if not outs:
            return None
        return outs[0] if nout <= 1 else outs[:nout]

    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        k = st[0]
        if k == "assign":
            self.assign(st[1], self.ev(st[2], env), env, st[3])
        elif k == "massign":
            v = self.ev(st[2], env, nout=len(st[1]))
            if not isinstance(v, list) or len(v) < len(st[1]):
                raise Undecided("multiple assignment")
            for t, x in zip(st[1], v):
                if t is not None:
                    self.assign(t, x, env, st[3])
        elif k == "expr":
            v = self.ev(st[1], env)
        elif k == "if":
            for cond, b in st[1]:
                if self.cond(self.ev(cond, env)):
                    return self.block(b, env)
            self.block(st[2], env)
        elif k == "for":
            r = self.ev(st[2], env)
            if not (isinstance(r, tuple) and r[0] == "list"):
                raise Undecided("for loop over " + repr(r)[:60])
            for x in r[1]:
                env[st[1]] = x
                try:
                    self.block(st[3], env)
                except MBrk:
                    break
                except MCont:
                    pass
        elif k == "while":
            for _ in range(1000):
                v = self.ev(st[1], env)
                if not isinstance(v, (bool, int)):
                    raise Undecided("while condition")
                if not v:
                    return
                try:
                    self.block(st[2], env)
                except MBrk:
                    return
                except MCont:
                    pass
            raise Undecided("while loop")
        elif k == "break":
            raise MBrk()
        elif k == "continue":
            raise MCont()
        elif k == "switch":
            v = self.ev(st[1], env)
            for ce, b in st[2]:
                c = self.ev(ce, env)
                for x in (c[1] if isinstance(c, tuple) and c[:1] == ("cell",) else [c]):
                    if self.cond(x == v if all(isinstance(y, (int, float)) or isinstance(y, tuple) and y[0] == "str" for y in (x, v)) else ("==", x, v)):
                        return self.block(b, env)
            self.block(st[3], env)
        elif k == "return":
            raise MRet()
        else:
            raise Undecided(f"statement {k}")

    def cond(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        return bool(self.choose(2, v))

    def assign(self, t, v, env, line):
        if t[0] == "id":
            env[t[1]] = v
            return
        if t[0] == "brace" and t[1][0] == "id":
            c = env.get(t[1][1])
            if isinstance(c, tuple) and c[0] == "cell" and len(t[2]) == 1:
                i = self.index(t[2][0], len(c[1]), env)
                lst = list(c[1])
                if i == len(lst) + 1:
                    lst.append(v)
                elif 1 <= i <= len(lst):
                    lst[i - 1] = v
                else:
                    raise Undecided("cell index")
                env[t[1][1]] = ("cell", lst)
                return
        if t[0] == "field" and t[1][0] == "id":
            o = env.get(t[1][1])
            if o is not None:
                env[t[1][1]] = self.setprop(o, t[2], v)
                return
        if t[0] == "paren" and t[1][0] == "id":
            o = env.get(t[1][1])
            idx = self.args(t[2], env, o)
            env[t[1][1]] = self.setidx(o, idx, v)
            return
        raise Undecided("assignment target")

    def setprop(self, o, name, v):
        raise Undecided(f"assignment of property {name}")

    def setidx(self, o, idx, v):
        raise Undecided("indexed assignment")

    def index(self, e, n, env):
        env = dict(env)
        env["end"] = n
        i = self.ev(e, env)
        if not isinstance(i, int):
            raise Undecided("index")
        return i

    def args(self, lst, env, of=None):
        out = []
        for a in lst:
            if a[0] == "colon":
                out.append(("colon",))
                continue
            if a[0] == "brace":
                v = self.brace(a, env)
                out += v
                continue
            e2 = env
            if of is not None and "end" not in env:
                e2 = dict(env)
                e2["end"] = ("end", of)
            out.append(self.ev(a, e2))
        return out

    def brace(self, e, env):
        c = self.ev(e[1], env)
        if not (isinstance(c, tuple) and c[0] == "cell"):
            raise Undecided("{ } of a value that is no cell")
        if len(e[2]) == 1 and e[2][0] == ("colon",):
            return list(c[1])
        if len(e[2]) == 1:
            a = e[2][0]
            e2 = dict(env)
            e2["end"] = len(c[1])
            i = self.ev(a, e2)
            if isinstance(i, tuple) and i[0] == "list":
                return [c[1][j - 1] for j in i[1]]
            if isinstance(i, int) and 1 <= i <= len(c[1]):
                return [c[1][i - 1]]
            if isinstance(i, int):
                raise MRaise("index exceeds the number of arguments")
        raise Undecided("cell index")

    def dotted(self, e):
        if e[0] == "id":
            return e[1]
        if e[0] == "field":
            d = self.dotted(e[1])
            return d and d + "." + e[2]
        return None

    def ev(self, e, env, nout=1):
        k = e[0]
        if k == "num":
            return e[1]
        if k == "str":
            return ("str", e[1])
        if k == "colon":
            return ("colon",)
        if k == "id":
            n = e[1]
            if n in env:
                return env[n]
            if n == "end" and "end" in env:
                return env["end"]
            if n == "nargin":
                return env["__nargin"]
            return self.call(n, [], env, nout)
        if k == "field":
            d = self.dotted(e)
            root = d.split(".")[0] if d else None
            if d and root not in env:
                return self.call(d, [], env, nout)
            o = self.ev(e[1], env)
            return self.prop(o, e[2])
        if k == "paren":
            d = self.dotted(e[1])
            if d and d.split(".")[0] not in env:
                return self.call(d, self.args(e[2], env), env, nout)
            if e[1][0] == "field":
                o = self.ev(e[1][1], env)
                return self.method(o, e[1][2], self.args(e[2], env))
            o = self.ev(e[1], env)
            return self.getidx(o, self.args(e[2], env, o))
        if k == "brace":
            v = self.brace(e, env)
            return v[0] if len(v) == 1 else ("list", v)
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"):
                a = self.ev(e[2], env)
                ca = self.cond(a)
                if ca != (o == "&&"):
                    return ca
                return self.cond(self.ev(e[3], env))
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            return self.binop(o, a, b)
        if k == "un":
            a = self.ev(e[2], env)
            if e[1] == "~":
                return not self.cond(a)
            if isinstance(a, int) and not isinstance(a, bool):
                return -a if e[1] == "-" else a
            return ("un", e[1], a)
        if k == "range":
            a, b = self.ev(e[1], env), self.ev(e[3], env)
            s = self.ev(e[2], env) if e[2] is not None else 1
            if isinstance(a, int) and isinstance(b, int) and isinstance(s, int) and s:
                return ("list", list(range(a, b + (1 if s > 0 else -1), s)))
            return ("range", a, s, b)
        if k == "matrix":
            vs = [x for x in e[1]]
            if any(x == ("semi",) for x in vs):
                raise Undecided("matrix")
            out = []
            for x in self.args(vs, env):
                if isinstance(x, tuple) and x[0] == "list":
                    out += x[1]
                else:
                    out.append(x)
            return ("list", out)
        if k == "cell":
            if any(x == ("semi",) for x in e[1]):
                raise Undecided("cell")
            return ("cell", [("str", ":") if x == ("colon",) else self.ev(x, env) for x in e[1]])
        if k == "transpose":
            return self.transpose(self.ev(e[1], env))
        raise Undecided(f"expression {k}")

    def transpose(self, v):
        if isinstance(v, tuple) and v[0] == "col":
            return ("row", v[1])
        if isinstance(v, tuple) and v[0] == "row":
            return ("col", v[1])
        return ("t", v)

    def binop(self, o, a, b):
        num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
        if num(a) and num(b):
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o in ("*", ".*"):
                return a * b
            if o == "==":
                return a == b
            if o == "~=":
                return a != b
            if o == "<":
                return a < b
            if o == "<=":
                return a <= b
            if o == ">":
                return a > b
            if o == ">=":
                return a >= b
            if o == "/" and b:
                return a // b if isinstance(a, int) and isinstance(b, int) and a % b == 0 else a / b
            if o == "^":
                return a ** b
        if isinstance(b, tuple) and b[:1] == ("many",) and a == 1:
            a, b = b, a
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
        if isinstance(a, tuple) and a[:1] == ("many",) and b == 1 and o in ("==", "~=", "<", ">", "<=", ">="):
            return o in ("~=", ">", ">=")
        if isinstance(a, bool) and isinstance(b, bool) and o in ("&", "|", "=="):
            return (a and b) if o == "&" else (a or b) if o == "|" else a == b
        if o == "+":
            l = sorted([a, b], key=repr)
            return ("+", l[0], l[1])
        return (o, a, b)

    def prop(self, o, name):
        return ("prop", o, name)

    def method(self, o, name, args):
        return ("method", o, name) + tuple(args)

    def getidx(self, o, idx):
        if isinstance(o, tuple) and o[0] == "cell":
            raise Undecided("cell( )")
        if idx == [("colon",)] or idx == [("str", ":")]:
            return self.shape("col", o)
        if isinstance(o, tuple) and o[0] == "list" and len(idx) == 1 and isinstance(idx[0], int):
            return o[1][idx[0] - 1]
        return ("idx", o) + tuple(map(_h, idx))

    def shape(self, kind, o):
        if isinstance(o, tuple) and o[0] in ("col", "row"):
            o = o[1]
        return (kind, o)

    INT = {"int8", "int16", "int32", "int64", "double", "uint64", "py.int"}

    def call(self, name, a, env, nout=1):
        n = len(a)
        if name in ("true", "false") and not n:
            return name == "true"
        if name in ("iscolumn", "isrow", "isvector", "isscalar", "ismatrix") and n == 1:
            if a[0] == ("arg", 0):
                w = self.world
                return {"iscolumn": w in ("col", "scalar"), "isrow": w in ("row", "scalar"), "isvector": w in ("col", "row", "scalar"),
                        "isscalar": w == "scalar", "ismatrix": True}[name]
            return (name, _h(a[0]))
        if name == "size" and n == 2 and a[0] == ("arg", 0) and a[1] in (1, 2):
            w = self.world
            return 1 if w == "scalar" or (w == "col" and a[1] == 2) or (w == "row" and a[1] == 1) else ("many", a[1])
        if name == "numel" and n == 1 and a[0] == ("arg", 0):
            return 1 if self.world == "scalar" else ("many", 0)
        if name == "length" and n == 1 and isinstance(a[0], tuple) and a[0][0] == "cell":
            return len(a[0][1])
        if name == "numel" and n == 1 and isinstance(a[0], tuple) and a[0][0] == "cell":
            return len(a[0][1])
        if name == "isempty" and n == 1 and isinstance(a[0], tuple) and a[0][0] == "cell":
            return len(a[0][1]) == 0
        if name == "reshape" and n == 3:
            if a[1] == 1 and a[2] == ("list", []):
                return self.shape("row", a[0])
            if a[2] == 1 and a[1] == ("list", []):
                return self.shape("col", a[0])
        if name == "reshape" and n == 2 and isinstance(a[1], tuple) and a[1][0] == "list":
            if a[1][1][:1] == [1]:
                return self.shape("row", a[0])
        if name in self.INT and n == 1:
            if isinstance(a[0], (int, float)):
                return int(a[0])
            if name == "double":
                return ("dbl", strip_int(a[0]))
            return a[0] if isinstance(a[0], tuple) and a[0][0] == "int" else ("int", strip_int(a[0]))
        if name == "ceil" and n == 1 and isinstance(a[0], (int, float)):
            return -int(-a[0] // 1)
        if name == "floor" and n == 1 and isinstance(a[0], (int, float)):
            return int(a[0] // 1)
        if name == "error":
            raise MRaise("error")
        if name == "isa" or name == "exist":
            return ("call", name) + tuple(map(_h, a))
        if name in self.prim:
            return self.primcall(name, a)
        if name in ("mat2py", "py2mat"):
            if n < 1:
                raise Undecided(name)
            return ("m2p0" if name == "mat2py" else "p2m0",) + tuple(map(_h, a))
        if name in ("wide.mat2py", "wide.py2mat") and "wide" not in self.prim:
            if n != 2:
                raise MRaise("arguments of " + name)
            return ("m2p" if name == "wide.mat2py" else "p2m", _h(a[0]), _h(a[1]))
        if name.startswith("py."):
            if name in ("py.None", "py.True", "py.False") and not n:
                return ("py", name)
            return self.pycall(name, a)
        r = self.mcall(name, a, nout)
        if r is not None:
            return r
        return ("call", name) + tuple(map(_h, a))

    def pycall(self, name, a):
        return ("pycall", name) + tuple(map(_h, a))

    def primcall(self, name, a):
        raise Undecided(name)

    def mcall(self, name, a, nout):
        """function of another file, method of wide or local function"""
        if name.startswith("wide."):
            w = load("wide")
            if w is None:
                raise Missing("wide.m")
            f = w[1].get(name[5:])
            if f is None:
                raise MRaise(f"{name} does not exist")
            return self.run(f, a, nout)
        if name in self.local:
            return self.run(self.local[name], a, nout)
        if name.startswith("cl_fix_"):
            m = load(name)
            if m is None:
                raise Bad(f"call of {name}, which does not exist")
            return ("mcall", name) + tuple(map(_h, a))
        m = load(name) if name.isidentifier() else None
        if m is not None and m[1]:
            old, self.local = self.local, m[1]
            try:
                return self.run(m[1]["__main__"], a, nout)
            finally:
                self.local = old
        return None

    local = {}


def _h(x):
    return x


# ------------------------------------------------------------------------------------------------ expectation
DATA = object()


def kind_of(name):
    """result kind of the Python operation"""
    if name.endswith("_fmt") or name in ("cl_fix_format",):
        return "fmt"
    if name in ("cl_fix_width", "cl_fix_is_wide", "cl_fix_in_range", "cl_fix_compare", "cl_fix_format_to_string"):
        return "plain"
    return "data"


def strip_int(v):
    while isinstance(v, tuple) and v[0] in ("int", "dbl"):
        v = v[1]
    return v


def int_fmt(f):
    """format of the raw integers of format f"""
    def ok(v):
        if not (isinstance(v, tuple) and v[0] == "mcall" and v[1] == "cl_fix_format" and len(v) == 5):
            return False
        s, i, z = map(strip_int, v[2:])
        w = ("+",) + tuple(sorted([("prop", f, "F"), ("prop", f, "I")], key=repr))
        return s == ("prop", f, "S") and i == w and z == 0
    return ok


def known(v, depth=0):
    """the term only contains constructs this analysis understands"""
    if isinstance(v, tuple) and v:
        if v[0] in ("call", "idx", "t", "unset", "range", "un", "list", "cell", "end"):
            return v[0] == "unset"
        if v[0] == "method":
            return False
        return all(known(x, depth + 1) for x in v[1:])
    return True


def explore(body):
    pre, width, out = [], [], []
    n = 0
    while True:
        del width[len(pre):]
        n += 1
        if n > 4000:
            raise Undecided("too many paths")
        out.append(body(pre, width))
        while pre and pre[-1] + 1 >= width[len(pre) - 1]:
            pre.pop()
        if not pre:
            return out
        pre[-1] += 1


def wrapper(name):
    def fn():
        sigs = py_sigs()
        m = load(name)
        f = m[1].get("__main__")
        line = 0
        if f is None:
            raise Undecided("no function")
        target = name if name != "cl_fix_format" else "FixFormat"
        if name == "cl_fix_format":
            sig = [("S", False), ("I", False), ("F", False)]
        elif name in sigs and sigs[name] is not None:
            sig = sigs[name]
        else:
            # alias of a FixFormat static method
            al = alias_sig(name)
            if al is None:
                return bad(name, f["line"], f"the Python package has no operation {name}")
            sig = al
        nmin = sum(not d for _, d in sig)
        var = bool(sig) and sig[-1][0] == "*"
        nmax = len(sig)
        params = [p for p, _ in sig]
        rfmt_i = params.index("r_fmt") if "r_fmt" in params else None
        # the wrappers require the result format
        if rfmt_i is not None:
            nmin = max(nmin, rfmt_i + 1)
        fixed = None if "varargin" in f["ins"] else len(f["ins"])
        total = 0
        counts = range(nmin, nmax + 1)
        if fixed is not None:
            if fixed < nmin or fixed > nmax:
                return bad(name, f["line"], f"{fixed} parameters, but the Python operation takes {nmin} to {nmax}")
            counts = [fixed]
        kind = kind_of(name)
        for nargs in counts:
            for world in ("col", "row", "scalar", "matrix"):
                def body(pre, width):
                    ev = Ev(world, pre, width)
                    ev.local = {k: v for k, v in m[1].items() if k != "__main__"}
                    ev.local.pop(f["name"], None)
                    try:
                        return ev.run(f, [("arg", i) for i in range(nargs)]), ev
                    except MRaise as e:
                        raise Bad(f"fails: {e}")
                try:
                    outs = explore(body)
                except Bad as b:
                    return bad(name, f["line"], f"with {nargs} arguments: {b.what}")
                for r, ev in outs:
                    total += 1
                    why = judge(name, target, params, nargs, r, world, kind, rfmt_i, ev.opaque)
                    if why:
                        if not known(r) or any(not simple_cond(c) for c, _ in ev.opaque):
                            raise Undecided(f"{why}: {str(r)[:160]}")
                        return bad(name, f["line"], f"with {nargs} arguments ({world}): {why}")
        return {"verdict": "proved", "paths": total, "proved_paths": total, "funcs": [f"{DIR}/{name}.m"]}
    return fn


def simple_cond(c):
    # conditions on the shapes of the add operand are understood
    return size_cond(c)


def size_cond(c):
    """number of elements of two Python arrays compared"""
    return isinstance(c, tuple) and len(c) == 3 and c[0] == "==" and all(isinstance(x, tuple) and x[0] == "prop" and x[2] == "size" for x in c[1:])


def bad(name, line, what):
    return {"verdict": "violated", "findings": [{"what": f"{name}: {what}", "kind": "wrapper", "at": f"{DIR}/{name}.m:{line}", "where_key": what[:50]}],
            "funcs": [f"{DIR}/{name}.m"]}


def alias_sig(name):
    """cl_fix_x_fmt = FixFormat.for_x"""
    t = ast.parse(open(os.path.join(repo(), PYF, "en_cl_fix.py")).read())
    ty = ast.parse(open(os.path.join(repo(), PYF, "en_cl_fix_types.py")).read())
    for st in t.body:
        if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in st.targets):
            v = st.value
            meth = v.attr if isinstance(v, ast.Attribute) else None
            for c in ty.body:
                if isinstance(c, ast.ClassDef) and c.name == "FixFormat":
                    for f in c.body:
                        if isinstance(f, ast.FunctionDef) and f.name == meth:
                            ps = [a.arg for a in f.args.args]
                            nd = len(f.args.defaults)
                            return [(a, i >= len(ps) - nd) for i, a in enumerate(ps)] + ([("*", True)] if f.args.vararg else [])
    return None


def judge(name, target, params, nargs, r, world, kind, rfmt_i, conds=()):
    """None if the term r is the documented result, else what is wrong"""
    # orientation
    shape = None
    if isinstance(r, tuple) and r[0] in ("col", "row"):
        shape, r = r[0], r[1]
    creator = name in ("cl_fix_zeros", "cl_fix_random")
    if kind == "data" or name in ("cl_fix_in_range",):
        if creator:
            if world == "scalar" and shape != "col":
                return "a scalar shape must give a column vector"
            if world in ("row", "matrix") and shape is not None:
                return f"the result is forced to a {shape} vector"
        elif name not in ("cl_fix_max_value", "cl_fix_min_value"):
            if world == "col" and shape != "col":
                return "a column vector loses its orientation"
            if world == "row" and shape != "row":
                return "a row vector loses its orientation"
            if world == "matrix" and shape is not None:
                return f"a matrix is flattened to a {shape} vector"
    # result conversion
    if kind == "data":
        if not (isinstance(r, tuple) and r[0] in ("p2m", "p2m0")):
            return "the result is not converted to MATLAB"
        if r[0] == "p2m0":
            return "a fixed-point result is converted without its format (wide formats)"
        if rfmt_i is not None:
            okf = r[2] == ("arg", rfmt_i)
        elif name == "cl_fix_to_integer":
            okf = int_fmt(("arg", 1))(r[2])
        elif name in ("cl_fix_max_value", "cl_fix_min_value"):
            okf = r[2] == ("arg", 0)
        elif creator:
            okf = r[2] == ("arg", 1)
        else:
            return None
        if not okf:
            return f"the result is converted with the format {show(r[2], params)}"
        r = r[1]
    elif kind == "plain":
        if not (isinstance(r, tuple) and r[0] in ("p2m", "p2m0")):
            return "the result is not converted to MATLAB"
        if r[0] == "p2m":
            return "a result that is no fixed-point number is converted with a format"
        r = r[1]
    elif isinstance(r, tuple) and r[0] in ("p2m", "p2m0"):
        return "a format is converted to MATLAB"
    if not (isinstance(r, tuple) and r[0] == "pycall"):
        return "the result is not that of the Python operation"
    if r[1] != "py.en_cl_fix_pkg." + target:
        return f"{r[1]} is called"
    args = r[2:]
    if len(args) != nargs:
        return f"{len(args)} of {nargs} arguments are forwarded"
    for i, a in enumerate(args):
        p = params[min(i, len(params) - 1)]
        nxt = params[i + 1] if i + 1 < len(params) else None
        raw = ("arg", i)
        if p in ("a", "b") and nxt == p + "_fmt":
            if a != ("m2p", raw, ("arg", i + 1)):
                return f"argument {p}: {show(a, params)} is passed, expected the data converted with {nxt}"
        elif p == "a" and name == "cl_fix_from_real":
            if a != ("m2p0", raw):
                return f"argument {p}: {show(a, params)} is passed"
        elif p == "a" and name == "cl_fix_from_integer":
            if not (isinstance(a, tuple) and a[0] == "m2p" and a[1] == raw and int_fmt(("arg", 1))(a[2])):
                return f"argument {p}: {show(a, params)} is passed, expected the data converted as integers of r_fmt"
        elif p == "add":
            v = a
            shaped = False
            while isinstance(v, tuple) and (v[0] == "method" and v[2] in ("reshape", "astype") or (v[0] == "pycall" and v[1] in ("py.numpy.array", "py.numpy.asarray"))
                                            or v[0] == "m2p0"):
                if v[0] == "method" and v[2] == "reshape" and not (len(v) == 4 and isinstance(v[3], tuple) and v[3][0] == "prop" and v[3][2] == "shape" and v[3][1] in args[:4]):
                    return "argument add is reshaped to something else than the data"
                shaped = shaped or v[0] == "m2p0" or v[:1] == ("method",) and v[2] == "reshape"
                v = v[2] if v[0] == "pycall" else v[1]
            if v != raw:
                return f"argument {p}: {show(a, params)} is passed"
            if world in ("col", "row") and not shaped and not any(size_cond(c) and not r for c, r in conds):
                return "argument add is passed in the orientation of MATLAB, not in that of the converted data"
        elif p == "shape":
            if strip_int(a) != raw:
                return f"argument {p}: {show(a, params)} is passed"
            if not (isinstance(a, tuple) and a[0] == "int"):
                return "argument shape is passed as floating-point number"
        elif name == "cl_fix_format" or p in ("r_frac_bits", "min_shift", "max_shift", "shift", "r_fmt_F") or name in ("cl_fix_round_fmt", "cl_fix_shift_fmt") and i:
            if strip_int(a) != raw:
                return f"argument {p}: {show(a, params)} is passed"
        elif a != raw:
            return f"argument {p}: {show(a, params)} is passed"
    return None


def show(v, params):
    if isinstance(v, tuple) and v:
        if v[0] == "arg":
            return params[v[1]] if v[1] < len(params) else f"argument {v[1] + 1}"
        if v[0] in ("m2p", "p2m"):
            return f"convert({show(v[1], params)}, {show(v[2], params)})"
        if v[0] == "int":
            return "int(" + show(v[1], params) + ")"
        if v[0] == "prop":
            return show(v[1], params) + "." + v[2]
        return f"{v[0]}({', '.join(show(x, params) for x in v[1:])})"
    return str(v)


# ------------------------------------------------------------------------------------------------ wide.m
class Fi:
    """fi object: stored integer = sum of c * word (+ high part dropped), with numeric type"""
    def __init__(self, s, w, f, val):
        self.s, self.w, self.f, self.val = s, w, f, val

    def __repr__(self):
        return f"Fi({self.s},{self.w},{self.f},{self.val})"


class Words:
    """Python uint64 array of n words per element / its MATLAB counterpart"""
    def __init__(self, n, py, fmt=None):
        self.n, self.py = n, py


class Slices:
    """MATLAB uint64 array that is filled slice by slice"""
    def __init__(self, n, vals):
        self.n, self.vals = n, vals


class WideEv(Ev):
    """evaluation of wide.m on one concrete format; the data are symbolic words"""

    def __init__(self, fmt, pre, width):
        Ev.__init__(self, "matrix", pre, width, prim=["wide"])
        self.fmt = fmt

    def W(self):
        return sum(self.fmt)

    def call(self, name, a, env, nout=1):
        S, I, F = self.fmt
        W = S + I + F
        n = len(a)
        if name == "cl_fix_is_wide" and n == 1:
            return W > 53
        if name == "cl_fix_width" and n == 1 and isinstance(a[0], tuple) and a[0][0] == "FMT":
            return sum(a[0][1])
        if name == "cl_fix_format" and n == 3:
            a = [strip_int(x) for x in a]
            if all(isinstance(x, int) for x in a):
                return ("FMT", tuple(a))
        if name == "double" and n == 1 and isinstance(a[0], int):
            return a[0]
        if name == "mat2py" and n == 1:
            if isinstance(a[0], Slices):
                return a[0]
            return ("m2p0", a[0])
        if name == "py2mat" and n == 1:
            return ("p2m0", a[0])
        if name == "py.en_cl_fix_pkg.to_uint64_array":
            if a != [("X",), ("FMT", self.fmt)]:
                raise Bad(f"to_uint64_array is called with {a}")
            return Words((W + 63) // 64, True)
        if name == "py.en_cl_fix_pkg.from_uint64_array":
            if n != 2 or not isinstance(a[0], Slices):
                raise Undecided("from_uint64_array")
            if a[1] != ("FMT", self.fmt):
                raise Bad(f"from_uint64_array is called with the format {a[1]} for data of {self.fmt}")
            need = (W + 63) // 64
            if a[0].n != need:
                raise Bad(f"{a[0].n} words are passed for {W} bits")
            for k in range(need):
                if a[0].vals.get(k) != ("word", k):
                    raise Bad(f"word {k} of the data passed to Python is {a[0].vals.get(k)} for {W} bits")
            return ("WIDE",)
        if name == "uint64" and n == 1 and isinstance(a[0], Words):
            return Words(a[0].n, False)
        if name == "uint64" and n == 1 and isinstance(a[0], Fi):
            return self.to_word(a[0])
        if name == "size" and n == 2 and isinstance(a[0], Words):
            if a[1] == 3:       # two data dimensions, then the words
                return a[0].n
            raise Undecided("size")
        if name == "size" and n == 1 and isinstance(a[0], Fi):
            return ("list", [("dim", 0), ("dim", 1)])
        if name == "ndims" and n == 1 and isinstance(a[0], Fi):
            return 2
        if name == "repmat" and n == 3 and isinstance(a[0], tuple) and a[0][0] == "cell" and isinstance(a[1], int) and a[2] == 1:
            return ("cell", list(a[0][1]) * a[1])
        if name == "zeros" and isinstance(a[0], tuple) and a[0][0] == "list" and isinstance(a[0][1][-1], int):
            if a[1:] != [("str", "uint64")]:
                raise Bad("the words are not held in uint64")
            return Slices(a[0][1][-1], {})
        if name == "fi" and n >= 1 and isinstance(a[0], Words):
            if n < 4 or not all(isinstance(x, int) for x in a[1:4]):
                raise Undecided("fi")
            s, w, f = a[1:4]
            if a[0].py:
                raise Undecided("fi of a Python object")
            if w - (1 if s else 0) < min(W, 64) or f != 0:
                raise Bad(f"a 64-bit word of a {W}-bit number does not fit into fi({s},{w},{f})")
            return ("fiwords", s, w, f, a[0].n)
        if name == "numerictype" and n == 3 and all(isinstance(x, int) for x in a):
            return ("NT",) + tuple(a)
        if name == "reinterpretcast" and n == 2 and isinstance(a[0], Fi) and isinstance(a[1], tuple) and a[1][0] == "NT":
            _, s, w, f = a[1]
            if w != a[0].w:
                raise Bad(f"reinterpretcast from {a[0].w} to {w} bits")
            return Fi(s, w, f, a[0].val)
        if name == "quantize" and n == 2 and isinstance(a[0], Fi) and isinstance(a[1], tuple) and a[1][0] == "NT":
            return ("quant", a[0], a[1])
        if name == "uint64" and n == 1 and isinstance(a[0], tuple) and a[0][0] == "quant":
            x, nt = a[0][1], a[0][2]
            if nt[1:] != (0, 64, 0):
                raise Bad(f"a word is quantised to {nt[1:]}")
            return self.to_word(x)
        if name in ("pow2", "bitsra", "bitsrl", "bitshift", "bitsll") and n == 2 and isinstance(a[0], Fi) and isinstance(a[1], int):
            k = a[1] if name in ("pow2", "bitshift", "bitsll") else -a[1]
            return self.shift(a[0], k)
        if name == "issigned" and n == 1 and isinstance(a[0], Fi):
            return a[0].s
        if name == "disp" or name == "assert":
            return None
        return Ev.call(self, name, a, env, nout)

    def to_word(self, x):
        if x.f != 0 or x.s != 0:
            raise Undecided("word of a scaled number")
        if isinstance(x.val, tuple) and x.val[0] == "shr" and x.val[1] % 64 == 0:
            return ("word", x.val[1] // 64)
        raise Bad(f"a word starts at bit {x.val[1]}") if isinstance(x.val, tuple) and x.val[0] == "shr" else Undecided("word")

    def shift(self, x, k):
        if isinstance(x.val, dict):
            if k < 0:
                raise Undecided("right shift")
            v = {i: c << k for i, c in x.val.items()}
            return Fi(x.s, x.w, x.f, v)
        if isinstance(x.val, tuple) and x.val[0] == "shr" and k <= 0:
            if x.f != 0:
                raise Undecided("shift of a scaled number")
            if getattr(x, "rm", None) != "Floor" and (k != 0):
                raise Bad("the remaining bits are rounded instead of truncated when words are extracted")
            y = Fi(x.s, x.w, x.f, ("shr", x.val[1] - k))
            y.rm = getattr(x, "rm", None)
            return y
        raise Undecided("shift")

    def prop(self, o, name):
        if isinstance(o, tuple) and o[0] == "FMT":
            if name in ("S", "I", "F"):
                return o[1]["SIF".index(name)]
        if isinstance(o, Words) and name == "ndim":
            return 3
        if isinstance(o, Words) and name == "shape":
            return ("cell", [("dim", 0), ("dim", 1), o.n])
        if isinstance(o, Fi):
            if name == "WordLength":
                return o.w
            if name == "FractionLength":
                return o.f
        return Ev.prop(self, o, name)

    def setprop(self, o, name, v):
        if isinstance(o, Fi):
            y = Fi(o.s, o.w, o.f, o.val)
            y.__dict__.update({k: x for k, x in o.__dict__.items() if k not in ("s", "w", "f", "val")})
            if name == "SumMode":
                y.sm = v[1]
            elif name == "SumWordLength":
                y.sw = v
            elif name == "RoundingMethod":
                y.rm = v[1]
            else:
                setattr(y, name, v)
            return y
        return Ev.setprop(self, o, name, v)

    def getidx(self, o, idx):
        if isinstance(o, tuple) and o[0] == "fiwords":
            if len(idx) == 3 and all(x in (("str", ":"), ("colon",)) for x in idx[:2]) and isinstance(idx[2], int):
                if not 1 <= idx[2] <= o[4]:
                    raise Bad(f"word {idx[2]} of {o[4]} is read")
                return Fi(o[1], o[2], o[3], {idx[2] - 1: 1})
        if isinstance(o, Fi) and idx == [("colon",)]:
            raise Undecided("flattened data")
        return Ev.getidx(self, o, idx)

    def setidx(self, o, idx, v):
        if isinstance(o, Slices) and len(idx) == 3 and all(x in (("str", ":"), ("colon",)) for x in idx[:2]) and isinstance(idx[2], int):
            y = Slices(o.n, dict(o.vals))
            if not 1 <= idx[2] <= o.n:
                raise Bad(f"word {idx[2]} of {o.n} is written")
            y.vals[idx[2] - 1] = v
            return y
        return Ev.setidx(self, o, idx, v)

    def binop(self, o, a, b):
        if isinstance(a, Fi) and isinstance(b, Fi) and o == "+" and isinstance(a.val, dict) and isinstance(b.val, dict):
            if not (getattr(a, "sm", None) == "KeepLSB" and getattr(a, "sw", 0) >= self.W()):
                if getattr(a, "sm", None) == "KeepLSB" and isinstance(getattr(a, "sw", None), int):
                    raise Bad(f"the sum of the words of a {self.W()}-bit number is kept in {a.sw} bits")
                raise Undecided("sum with full precision")
            v = dict(a.val)
            for k, c in b.val.items():
                v[k] = v.get(k, 0) + c
            y = Fi(a.s, a.sw, a.f, v)
            y.sm, y.sw = a.sm, a.sw
            return y
        if isinstance(a, bool) and isinstance(b, int):
            a = int(a)
        if isinstance(b, bool) and isinstance(a, int):
            b = int(b)
        return Ev.binop(self, o, a, b)


def wide(direction):
    def fn():
        w = load("wide")
        if w is None:
            raise Missing("wide.m")
        f = w[1].get(direction)
        if f is None:
            raise Missing("wide." + direction)
        n = 0
        for S in (0, 1):
            for W in (8, 53, 54, 60, 63, 64, 65, 100, 127, 128, 129, 150, 191, 192, 193, 256, 300):
                for I in (W // 3, -5, W + 4):
                    fmt = (S, I, W - S - I)

                    def body(pre, width):
                        ev = WideEv(fmt, pre, width)
                        ev.local = {}
                        if direction == "py2mat":
                            x = ("X",)
                        else:
                            x = Fi(S, W, fmt[2], ("shr", 0)) if W > 53 else ("X",)
                        try:
                            r = ev.run(f, [x, ("FMT", fmt)])
                        except MRaise as e:
                            raise Bad(f"fails: {e}")
                        if W <= 53:
                            want = ("p2m0", ("X",)) if direction == "py2mat" else ("m2p0", ("X",))
                            if r != want:
                                raise (Bad if known(r) and isinstance(r, tuple) else Undecided)(f"narrow data are converted to {r}")
                        elif direction == "mat2py":
                            if r != ("WIDE",):
                                raise (Bad if known(r) else Undecided)(f"wide data are converted to {r}")
                        else:
                            if not isinstance(r, Fi):
                                raise (Bad if known(r) else Undecided)(f"wide data are converted to {r}")
                            want = {k: 1 << (64 * k) for k in range((W + 63) // 64)}
                            if r.val != want:
                                raise Bad(f"words are recombined with the weights {r.val}")
                            if (int(r.s), r.w, r.f) != (S, W, fmt[2]):
                                raise Bad(f"the result has the type {(r.s, r.w, r.f)} for the format {fmt}")
                        return r
                    try:
                        n += len(explore(body))
                    except Bad as b:
                        return bad("wide", f["line"], f"{direction} for {fmt}: {b.what}")
        return {"verdict": "proved", "paths": n, "proved_paths": n, "funcs": [f"{DIR}/wide.m:{direction}"]}
    return fn


def ob_wide():
    return [Direct("wide.py2mat converts by format and recombines the words", wide("py2mat"), "wide.py2mat"),
            Direct("wide.mat2py converts by format and splits the words", wide("mat2py"), "wide.mat2py")]


def ob_c19(tier):
    fs = sorted(glob.glob(os.path.join(repo(), DIR, "cl_fix_*.m")))
    if not fs:
        def miss():
            raise Missing(DIR)
        return [Direct("wrappers", miss, DIR)]
    obs = []
    for p in fs:
        n = os.path.basename(p)[:-2]
        if n == "cl_fix_constants":
            continue
        obs.append(Direct(f"{n}.m forwards to the Python operation", wrapper(n), n))
    return obs + ob_wide()


if __name__ == "__main__":
    from ob import run_ob, print_res
    for o in ob_c19("quick"):
        print_res(run_ob(o, "quick"))
