"""Abstract interpreter for the VHDL packages: same numeric domain and trace partitioning as pyabs.py.

Bit vectors are lists of segments (LSB first) of symbolic width; the content of a segment is an integer
expression taken modulo 2^width (None: uninitialised).  Lengths, index bounds and record fields are linear
forms over the format parameters; index checks, length checks, subtype range checks and assertions of severity
error / failure end the path in VFail."""
import os
from fractions import Fraction
from poly import Lin
from num import Expr, Undecided
import pyabs as A
import vhdl
from vhdl import N

SL = "UX01ZWLH-"
INTS = ("integer", "natural", "positive")
VECS = ("std_logic_vector", "std_ulogic_vector", "unsigned", "signed", "u_unsigned", "u_signed", "bit_vector")


class VFail(A.PyRaise):
    """simulation stops: assertion failure, bound check, ..."""
    def __init__(self, name, msg, where):
        Exception.__init__(self, f"{name}: {msg}")
        self.name, self.msg, self.where, self.exc = name, msg, where, None


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class ExitLoop(Exception):
    def __init__(self, label):
        self.label = label


class NextLoop(ExitLoop):
    pass


class NoPattern(Undecided):
    pass


class DI:
    """data-dependent integer"""
    def __init__(self, e):
        self.e = e


class R:
    def __init__(self, e):
        self.e = e


class En:
    def __init__(self, type_, name):
        self.type, self.name = type_, name

    def __eq__(self, o):
        return isinstance(o, En) and o.type == self.type and o.name == self.name

    def __hash__(self):
        return hash((self.type, self.name))

    def __repr__(self):
        return self.name


class Chr:
    """character or (as a literal) std_logic"""
    def __init__(self, c):
        self.c = c


class Dg:
    """decimal digit character of symbolic value e (0..9)"""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "#"


class Bit:
    """std_logic: v is one of 'UX01ZWLH-' or an Expr with value 0 or 1"""
    def __init__(self, v):
        self.v = v


class St:
    def __init__(self, chars, left=1, dir_="to", lit=False):
        self.chars, self.left, self.dir, self.lit = list(chars), left, dir_, lit

    def text(self):
        return "".join(str(c) for c in self.chars)


class Rec:
    def __init__(self, type_, f):
        self.type, self.f = type_, f

    def __repr__(self):
        return f"{self.type}{self.f}"


class ArrV:
    """array of anything, concrete bounds"""
    def __init__(self, type_, els, left=0, dir_="to"):
        self.type, self.els, self.left, self.dir = type_, els, left, dir_


class Vec:
    def __init__(self, segs, left, right, dir_, tm):
        self.segs, self.left, self.right, self.dir, self.tm = segs, left, right, dir_, tm


class Ty:
    """resolved subtype"""
    def __init__(self, base, con=None, decl=None):
        self.base, self.con, self.decl = base, con, decl

    def __repr__(self):
        return f"Ty({self.base},{self.con})"


class Obj:
    def __init__(self, value, ty, cls, name):
        self.value, self.ty, self.cls, self.name = value, ty, cls, name


class Scope:
    def __init__(self, name, parent=None, file=""):
        self.name, self.parent, self.file = name, parent, file or (parent.file if parent else "")
        self.names = {}          # objects, types, enum literals
        self.subs = {}           # name -> [SubP]
        self.used = []           # scopes made visible by use clauses

    def lookup(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            for u in s.used:
                if n in u.names:
                    return u.names[n]
            s = s.parent
        return None

    def functions(self, n):
        out, s = [], self
        while s is not None:
            out += s.subs.get(n, [])
            for u in s.used:
                out += u.subs.get(n, [])
            s = s.parent
        return out


class SubP:
    def __init__(self, node, scope):
        self.node, self.scope = node, scope

    def __repr__(self):
        return f"{os.path.basename(self.scope.file)}:{self.node.name}"


_parsed = {}


def load_files(paths):
    out = []
    for p in paths:
        key = (p, os.stat(p).st_mtime_ns)
        if key not in _parsed:
            _parsed[key] = vhdl.parse_file(p)
        out.append((p, _parsed[key]))
    return out


class Interp:
    def __init__(self, ctx, paths, summaries=None):
        self.c = ctx
        self.summ = summaries or {}
        self.dnums = []          # symbolic numbers with known digits
        self.pkgs = {}
        self.depth = 0
        self.lit = {}
        self.hook = None
        self.loc = ("?", 0, "?")
        self.builtin = Scope("builtin", None)
        bodies = []
        for p, units in load_files(paths):
            for u in units:
                if u.kind in ("package", "packagebody"):
                    sc = self.pkgs.get(u.name)
                    if sc is None:
                        sc = self.pkgs[u.name] = Scope(u.name, self.builtin, p)
                    bodies.append((sc, u, p))
        for kind in ("package", "packagebody"):
            for sc, u, p in bodies:
                if u.kind == kind:
                    for x in u.ctx:
                        if x.kind == "use":
                            for n in x.names:
                                ps = n.split(".")
                                if len(ps) >= 2 and ps[1] in self.pkgs and self.pkgs[ps[1]] not in sc.used and self.pkgs[ps[1]] is not sc:
                                    sc.used.append(self.pkgs[ps[1]])
                    self.declare(sc, u.decls, lazy=True)

    # ================================================================ declarations
    def declare(self, sc, decls, lazy=False):
        for d in decls:
            k = d.kind
            if k == "subprog":
                lst = sc.subs.setdefault(d.name, [])
                sig = [(p.type.mark, p.name) for p in d.params]
                for i, o in enumerate(lst):
                    if [p.type.mark for p in o.node.params] == [x[0] for x in sig]:
                        if d.body is not None:
                            lst[i] = SubP(d, sc)
                        break
                else:
                    lst.append(SubP(d, sc))
            elif k == "type":
                sc.names[d.name] = ("type", d)
                if d.def_ is not None and d.def_.kind == "enum":
                    for x in d.def_.lits:
                        sc.names.setdefault(x, ("value", En(d.name, x)))
            elif k == "subtype":
                sc.names[d.name] = ("subtype", d, sc)
            elif k == "object":
                if lazy and d.cls == "constant" and d.init is None and d.name in sc.names:
                    continue
                if lazy:
                    sc.names[d.name] = ("lazy", d, sc)
                else:
                    sc.names[d.name] = self.make_obj(d, sc)
            elif k == "alias":
                if lazy:
                    sc.names[d.name] = ("lazyalias", d, sc)
                else:
                    val = self.eval(d.value, sc)
                    ty = None
                    if d.type is not None:
                        ty = self.resolve(d.type, sc)
                        val = self.convert(val, ty, sc, d)
                    sc.names[d.name] = Obj(val, ty, "alias", d.name)
            elif k == "use":
                for n in d.names:
                    ps = n.split(".")
                    if len(ps) >= 2 and ps[1] in self.pkgs:
                        sc.used.append(self.pkgs[ps[1]])

    def make_obj(self, d, sc):
        self.at(d, sc)
        ty = self.resolve(d.type, sc)
        if d.init is not None:
            val = self.eval(d.init, sc, ty)
            val = self.convert(val, ty, sc, d)
        else:
            val = self.default(ty, sc)
        return Obj(val, ty, d.cls, d.name)

    def default(self, ty, sc):
        b = ty.base
        if b in INTS:
            return ty.con[0] if ty.con else 0
        if b == "real":
            return R(Expr())
        if b == "boolean":
            return False
        if b == "character":
            return Chr("\0")
        if b in ("std_logic", "std_ulogic"):
            return Bit("U")
        if b in VECS:
            if not ty.con:
                raise Undecided("unconstrained vector object")
            l, r, dr = ty.con
            return Vec([(self.rlen(l, r, dr), None)], l, r, dr, b)
        if b == "string":
            l, r, dr = ty.con
            n = self.cint(self.rlen(l, r, dr))
            return St(["\0"] * n, l if isinstance(l, int) else self.cint(l), dr)
        if ty.decl is not None:
            df = ty.decl.def_
            if df.kind == "record":
                return Rec(b, {n: self.default(self.resolve(t, sc), sc) for n, t in df.fields})
            if df.kind == "enum":
                return En(b, df.lits[0])
            if df.kind == "arraytype" and ty.con:
                l, r, dr = ty.con
                el = self.resolve(df.elem, sc)
                return ArrV(b, [self.default(el, sc) for _ in range(self.cint(self.rlen(l, r, dr)))], self.cint(l), dr)
        raise Undecided(f"default value of type {b}")

    def resolve(self, t, sc):
        m = t.mark.split(".")[-1]
        ty = None
        if m in INTS:
            ty = Ty(m, {"integer": None, "natural": (0, None), "positive": (1, None)}[m])
        elif m in ("real", "boolean", "std_logic", "std_ulogic", "character", "string", "time", "line", "bit"):
            ty = Ty("std_logic" if m == "std_ulogic" else m)
        elif m in VECS:
            ty = Ty({"std_ulogic_vector": "std_logic_vector", "u_unsigned": "unsigned", "u_signed": "signed"}.get(m, m))
        else:
            e = sc.lookup(m)
            if e is None:
                raise Undecided(f"unknown type {m}")
            if isinstance(e, tuple) and e[0] == "subtype":
                ty = self.resolve(e[1].type, e[2])
            elif isinstance(e, tuple) and e[0] == "type":
                ty = Ty(m, None, e[1])
                df = e[1].def_
                if df.kind == "arraytype" and not df.unconstrained:
                    l, r, dr = self.drange(df.index[0], sc)
                    ty.con = (l, r, dr)
                if df.kind == "rangetype":
                    l, r, dr = self.drange(df.range, sc)
                    ty = Ty("integer", (l, r) if dr == "to" else (r, l))
            else:
                raise Undecided(f"{m} is not a type")
        if t.con:
            k, x = t.con
            if k == "range":
                l, r, dr = self.drange(x, sc)
                if isinstance(l, R):
                    return ty
                ty = Ty(ty.base, (l, r) if dr == "to" else (r, l), ty.decl)
            else:
                l, r, dr = self.drange(x[0], sc)
                ty = Ty(ty.base, (l, r, dr), ty.decl)
        return ty

    # ================================================================ integers
    def norm_i(self, x):
        if isinstance(x, Lin):
            x = self.c.lin(x)
            if x.is_const():
                return x.c
        return x

    def cint(self, x):
        x = self.norm_i(x)
        if isinstance(x, Lin):
            lo, hi = self.c.P.rng(x)
            if lo == hi:
                return int(lo)
        if isinstance(x, DI):
            k = self.c.norm(x.e).as_const()
            if k is not None and k.denominator == 1:
                return int(k)
        if not isinstance(x, int):
            raise Undecided("symbolic integer where a concrete one is needed")
        return x

    def L(self, x):
        """integer value -> Lin"""
        x = self.norm_i(x)
        if isinstance(x, DI):
            k = self.c.norm(x.e).as_const()
            if k is None:
                raise Undecided("data-dependent length or index")
            return Lin(int(k))
        if isinstance(x, bool) or not isinstance(x, (int, Lin)):
            raise Undecided(f"integer expected, got {x!r}")
        return Lin.of(x)

    def E(self, x):
        """integer value -> Expr (only for constants and data)"""
        x = self.norm_i(x)
        if isinstance(x, DI):
            return self.c.norm(x.e)
        if isinstance(x, int):
            return Expr.const(x)
        # parameter-valued integer as data: only when it is a single value
        lo, hi = self.c.P.rng(x)
        if lo == hi:
            return Expr.const(int(lo))
        if hi - lo <= 64:
            for k in range(int(lo), int(hi)):
                if not self.c.decide_lin(self.c.lin(x) - k - 1):
                    return Expr.const(k)
            return Expr.const(int(hi))
        raise Undecided("format parameter used as data")

    def ge_i(self, a, b):
        """a >= b for integers"""
        if isinstance(a, DI) or isinstance(b, DI):
            return self.c.decide(self.c.norm(self.E(a) - self.E(b)))
        return self.c.decide_lin(self.c.lin(self.L(a) - self.L(b)))

    def eq_i(self, a, b):
        if isinstance(a, DI) or isinstance(b, DI):
            return self.c.eq0(self.c.norm(self.E(a) - self.E(b)))
        return self.c.lin_eq0(self.c.lin(self.L(a) - self.L(b)))

    def rlen(self, l, r, dr):
        n = self.c.lin(self.L(l) - self.L(r) + 1 if dr == "downto" else self.L(r) - self.L(l) + 1)
        if n.is_const():
            return max(0, n.c)
        if self.c.decide_lin(n):
            return self.norm_i(n)
        return 0

    def drange(self, x, sc):
        if x.kind == "range":
            l, r = self.eval(x.left, sc), self.eval(x.right, sc)
            return l, r, x.dir
        if x.kind == "rangeof":
            e = x.e
            if e.kind == "attr" and e.a in ("range", "reverse_range"):
                v = self.eval(e.e, sc)
                l, r, dr = self.bounds(v)
                if e.a == "reverse_range":
                    l, r, dr = r, l, "to" if dr == "downto" else "downto"
                return l, r, dr
            if e.kind == "name":
                y = sc.lookup(e.id)
                if isinstance(y, tuple) and y[0] in ("type", "subtype"):
                    ty = self.resolve(N("subtype_ind", x.line, mark=e.id, con=None), sc)
                    if ty.decl is not None and ty.decl.def_.kind == "enum":
                        return ("enum", ty.decl), None, "to"
                    if ty.con and len(ty.con) == 2:
                        return ty.con[0], ty.con[1], "to"
                if e.id == "boolean":
                    return ("boolean", None), None, "to"
            return self.drange_val(e, sc)
        if x.kind == "attr":
            return self.drange(N("rangeof", x.line, e=x), sc)
        raise Undecided("range " + x.kind)

    def drange_val(self, e, sc):
        v = self.eval(e, sc)
        return v, v, "to"

    def bounds(self, v):
        if isinstance(v, Vec):
            return v.left, v.right, v.dir
        if isinstance(v, St):
            n = len(v.chars)
            return v.left, (v.left + n - 1 if v.dir == "to" else v.left - n + 1), v.dir
        if isinstance(v, ArrV):
            n = len(v.els)
            return v.left, (v.left + n - 1 if v.dir == "to" else v.left - n + 1), v.dir
        raise Undecided("bounds of " + type(v).__name__)

    # ================================================================ failures
    def at(self, node, sc):
        f = sc
        while f is not None and not f.file:
            f = f.parent
        fn = sc
        while fn is not None and not fn.name:
            fn = fn.parent
        self.loc = (f.file if f else "", node.line, fn.name if fn else "")

    def where(self):
        return f"{os.path.basename(self.loc[0])}:{self.loc[1]} in {self.loc[2]}"

    def fail(self, what, msg=""):
        raise VFail(what, msg, self.where())

    # ================================================================ vectors
    def vlen(self, v):
        t = Lin(0)
        for w, _ in v.segs:
            t = t + self.L(w)
        return self.c.lin(t)

    def mkvec(self, e, n, tm):
        """n-bit vector with range n-1 downto 0 holding e mod 2^n"""
        n = self.norm_i(n)
        return Vec([(n, e)], self.norm_i(self.L(n) - 1), 0, "downto", tm)

    def reduce(self, e, w, signed=False):
        """representative of e mod 2^w in [0, 2^w) or [-2^(w-1), 2^(w-1))"""
        c = self.c
        w = self.c.lin(self.L(w))
        if c.lin_eq0(w):
            return Expr()
        e, w = c.norm(e), c.lin(w)
        off = Expr.pow2(w - 1) if signed else Expr()
        lo = -off
        hi = Expr.pow2(w) - 1 - off
        if c.ge0(c.norm(e - lo)) is True and c.ge0(c.norm(hi - e)) is True:
            return e
        q = c.floor_div(c.norm(e + off), w)
        return c.norm(c.norm(e) - c.norm(q).shift(c.lin(w)))

    def within(self, e, w):
        c = self.c
        e = c.norm(e)
        return c.ge0(e) is True and c.ge0(c.norm(Expr.pow2(c.lin(self.L(w))) - 1 - e)) is True

    def pat(self, v):
        """representative of the whole vector"""
        c = self.c
        if not v.segs:
            return Expr()
        out, off = Expr(), Lin(0)
        n = len(v.segs)
        for i, (w, e) in enumerate(v.segs):
            if e is None:
                if c.lin_eq0(c.lin(self.L(w))):
                    continue
                self.fail("UninitialisedBits", "uninitialised vector elements are used")
            x = self.reduce(e, w) if i < n - 1 else c.norm(e)
            out = c.norm(out) + c.norm(x).shift(c.lin(off))
            off = off + self.L(w)
        return c.norm(out)

    def uval(self, v):
        return self.reduce(self.pat(v), self.vlen(v))

    def sval(self, v):
        return self.reduce(self.pat(v), self.vlen(v), True)

    def merge(self, segs):
        c = self.c
        out = []
        for w, e in segs:
            w = self.norm_i(self.c.lin(self.L(w)))
            if isinstance(w, int) and w == 0:
                continue
            if out and e is not None and out[-1][1] is not None and self.within(out[-1][1], out[-1][0]):
                pw, pe = out[-1]
                out[-1] = (self.norm_i(self.L(pw) + self.L(w)), c.norm(c.norm(pe) + c.norm(e).shift(c.lin(self.L(pw)))))
            elif out and e is None and out[-1][1] is None:
                out[-1] = (self.norm_i(self.L(out[-1][0]) + self.L(w)), None)
            else:
                out.append((w, e))
        return out

    def extract(self, v, lo, w):
        """segments of the bits [lo, lo+w) counted from the LSB; in range"""
        c = self.c
        out = []
        cur, end, off = c.lin(self.L(lo)), c.lin(self.L(lo) + self.L(w)), Lin(0)
        for sw, e in v.segs:
            top = c.lin(off + self.L(sw))
            if c.decide_lin(c.lin(cur - top)):
                off = top
                continue
            if c.decide_lin(c.lin(cur - end)):
                break
            up = c.lin(end) if c.decide_lin(c.lin(top - end)) else c.lin(top)
            cur, off = c.lin(cur), c.lin(off)
            if e is None:
                out.append((self.norm_i(up - cur), None))
            else:
                out.append((self.norm_i(up - cur), c.floor_div(c.norm(e), c.lin(cur - off)) if not c.lin_eq0(cur - off) else c.norm(e)))
            cur, off = c.lin(up), c.lin(top)
        return self.merge(out)

    def pos(self, v, i):
        """position from the LSB of index i, with bound check"""
        c = self.c
        i = self.L(i)
        p = c.lin(i - self.L(v.right)) if v.dir == "downto" else c.lin(self.L(v.right) - i)
        n = self.vlen(v)
        if not c.decide_lin(p) or not c.decide_lin(c.lin(n - p - 1)):
            self.fail("IndexOutOfRange", f"index {i} of a vector of length {n}")
        return c.lin(p)

    def slice_pos(self, v, l, r, dr):
        """(lo, width) of the slice, with checks"""
        c = self.c
        w = self.rlen(l, r, dr)
        if isinstance(w, int) and w == 0 or c.lin_eq0(c.lin(self.L(w))):
            return Lin(0), 0
        if dr != v.dir:
            self.fail("SliceDirection", "slice direction differs from the direction of the vector")
        p1 = self.pos(v, l)
        p0 = self.pos(v, r)
        return c.lin(p0), c.lin(self.L(w))

    def bit_at(self, v, p):
        """Bit at position p"""
        c = self.c
        seg = self.extract(v, p, 1)
        if not seg or seg[0][1] is None:
            return Bit("U")
        e = self.reduce(seg[0][1], 1)
        k = c.norm(e).as_const()
        if k is not None:
            return Bit("1" if k else "0")
        return Bit(e)

    def bit_expr(self, b):
        if isinstance(b, Chr):
            b = Bit(b.c)
        if isinstance(b.v, Expr):
            return self.c.norm(b.v)
        if b.v in "0L":
            return Expr()
        if b.v in "1H":
            return Expr.const(1)
        self.fail("UninitialisedBits", f"std_logic value '{b.v}' is used")

    def bit_is(self, b, ch):
        """b = ch"""
        if isinstance(b, Chr):
            return b.c == ch
        if isinstance(b.v, Expr):
            if ch not in "01":
                return False
            e = self.c.norm(b.v)
            one = not self.c.eq0(e)
            return one == (ch == "1")
        return b.v == ch

    def bit_conc(self, b):
        if isinstance(b, Chr):
            return b.c
        if isinstance(b.v, Expr):
            return "0" if self.c.eq0(self.c.norm(b.v)) else "1"
        return b.v

    def is_bitlike(self, x):
        return isinstance(x, Bit) or isinstance(x, Chr) and isinstance(x.c, str) and x.c in SL

    def char_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, str):
            x, y = y, x
        if isinstance(y, str):
            if y not in "0123456789":
                return False
            return self.c.eq0(self.c.norm(x.e - int(y)))
        return self.c.eq0(self.c.norm(x.e - y.e))

    def as_vec(self, x, tm="std_logic_vector"):
        if isinstance(x, Vec):
            return x
        if isinstance(x, St):
            if any(ch not in "01LH" for ch in x.chars):
                if not x.chars:
                    pass
                elif all(ch in SL for ch in x.chars):
                    return Vec([(len(x.chars), None)], 0, len(x.chars) - 1, "to", tm)
                else:
                    raise Undecided("string used as a vector")
            k = 0
            for ch in x.chars:
                k = 2 * k + (ch in "1H")
            return Vec([(len(x.chars), Expr.const(k))] if x.chars else [], 0, len(x.chars) - 1, "to", tm)
        raise Undecided("vector expected, got " + type(x).__name__)

    def retype(self, v, tm):
        return Vec(v.segs, v.left, v.right, v.dir, tm)

    # ================================================================ conversion to a subtype
    def convert(self, v, ty, sc, node=None, what="value"):
        """implicit subtype conversion on assignment / association: range and length checks"""
        b = ty.base
        if b in INTS:
            if isinstance(v, bool) or not isinstance(v, (int, Lin, DI)):
                raise Undecided(f"integer expected, got {type(v).__name__}")
            if ty.con:
                lo, hi = ty.con[0], ty.con[1]
                if lo is not None and not self.ge_i(v, lo):
                    self.fail("RangeCheck", f"value below the range of {b}")
                if hi is not None and not self.ge_i(hi, v):
                    self.fail("RangeCheck", f"value above the range of {b}")
            return self.norm_i(v)
        if b in VECS:
            if isinstance(v, St):
                v = self.as_vec(v, b)
            if not isinstance(v, Vec):
                raise Undecided(f"{b} expected, got {type(v).__name__}")
            if v.tm not in (b, None):
                raise Undecided(f"{b} expected, got {v.tm}")
            if ty.con:
                l, r, dr = ty.con
                n = self.rlen(l, r, dr)
                if not self.eq_i(n, self.norm_i(self.vlen(v))):
                    self.fail("LengthMismatch", "lengths of the vectors do not match")
                return Vec(list(v.segs), l, r, dr, b)
            return Vec(list(v.segs), v.left, v.right, v.dir, b)
        if b == "std_logic":
            if isinstance(v, Chr) and isinstance(v.c, str) and v.c in SL:
                return Bit(v.c)
            if not isinstance(v, Bit):
                raise Undecided("std_logic expected")
            return v
        if b == "string":
            if not isinstance(v, St):
                raise Undecided("string expected, got " + type(v).__name__)
            if ty.con:
                l, r, dr = ty.con
                if self.cint(self.rlen(l, r, dr)) != len(v.chars):
                    self.fail("LengthMismatch", "lengths of the strings do not match")
                return St(v.chars, self.cint(l), dr)
            return St(v.chars, v.left, v.dir)
        if b == "real":
            if not isinstance(v, R):
                raise Undecided("real expected, got " + type(v).__name__)
            return v
        if b == "boolean":
            if not isinstance(v, bool):
                raise Undecided("boolean expected")
            return v
        if isinstance(v, Rec):
            if v.type != b:
                raise Undecided("record type")
            return Rec(v.type, dict(v.f))
        if isinstance(v, ArrV):
            return ArrV(v.type, list(v.els), v.left, v.dir)
        return v

    # ================================================================ calls
    def matches(self, t, v, sc):
        m = t.mark.split(".")[-1]
        e = sc.lookup(m)
        while isinstance(e, tuple) and e[0] == "subtype":
            m = e[1].type.mark.split(".")[-1]
            e = e[2].lookup(m)
        if isinstance(v, bool):
            return m == "boolean"
        if isinstance(v, (int, Lin, DI)):
            return m in INTS or (isinstance(e, tuple) and e[0] == "type" and e[1].def_.kind == "rangetype")
        if isinstance(v, R):
            return m == "real"
        if isinstance(v, En):
            return m == v.type
        if isinstance(v, Bit):
            return m in ("std_logic", "std_ulogic")
        if isinstance(v, Chr):
            return m == "character" or m in ("std_logic", "std_ulogic") and isinstance(v.c, str) and v.c in SL
        if isinstance(v, Vec):
            return m in VECS and (v.tm is None or v.tm == {"std_ulogic_vector": "std_logic_vector", "u_unsigned": "unsigned", "u_signed": "signed"}.get(m, m))
        if isinstance(v, St):
            return m == "string" or v.lit and m in VECS and all(isinstance(ch, str) and ch in SL for ch in v.chars)
        if isinstance(v, Rec):
            return m == v.type
        if isinstance(v, ArrV):
            return m == v.type
        if isinstance(v, Agg):
            return m in VECS or isinstance(e, tuple) and e[0] == "type" and e[1].def_.kind in ("record", "arraytype")
        return False

    def bind(self, sub, args, kw):
        """args positional values, kw named -> dict or None when the profile does not match"""
        ps = sub.node.params
        if len(args) > len(ps):
            return None
        got = {}
        for p, v in zip(ps, args):
            got[p.name] = v
        for n, v in kw.items():
            if n in got or n not in [p.name for p in ps]:
                return None
            got[n] = v
        for p in ps:
            if p.name in got:
                if not self.matches(p.type, got[p.name], sub.scope):
                    return None
            elif p.default is None:
                return None
        return got

    def find(self, name, sc, args, kw):
        seen = []
        for s in sc.functions(name):
            if any(s.node is o.node for o, _ in seen):
                continue
            g = self.bind(s, args, kw)
            if g is not None:
                seen.append((s, g))
        return seen[0] if seen else None

    def call_sub(self, sub, got, caller_scope, node=None):
        nd = sub.node
        if nd.body is None:
            raise Undecided(f"no body for {nd.name}")
        h = self.summ.get(nd.name)
        if h is not None:
            vals = dict(got)
            for p in nd.params:
                if p.name not in vals:
                    vals[p.name] = self.eval(p.default, sub.scope, self.resolve(p.type, sub.scope))
            r = h(self, sub, [vals[p.name] for p in nd.params])
            if r is not NotImplemented:
                return r
        if len(got) == 1 and len(nd.params) == 1 and nd.sk == "function":
            x = got[nd.params[0].name]
            if isinstance(x, Chr) and isinstance(x.c, Dg):
                return self.tabulate(sub, nd.params[0].name, x.c, caller_scope, node)
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        save = self.loc
        try:
            sc = Scope(nd.name, sub.scope)
            self.c.funcs.add(f"{os.path.basename(sub.scope.file)}:{nd.name}")
            for p in nd.params:
                self.at(nd, sc)
                ty = self.resolve(p.type, sub.scope)
                if p.name in got:
                    v = got[p.name]
                    if isinstance(v, Agg):
                        v = self.aggregate(v.node, v.scope, ty)
                else:
                    v = self.eval(p.default, sub.scope, ty)
                self.loc = save if node is None else self.loc
                if p.mode == "out":
                    v = self.default(ty, sub.scope) if not ((ty.base in VECS or isinstance(v, ArrV)) and not ty.con) else v
                else:
                    v = self.convert(v, ty, sub.scope)
                cls = p.cls or ("constant" if p.mode == "in" else "variable")
                sc.names[p.name] = Obj(v, ty, cls, p.name)
            self.declare(sc, nd.decls)
            try:
                self.stmts(nd.body, sc)
            except Ret as r:
                if nd.sk == "function":
                    rt = self.resolve(nd.ret, sub.scope)
                    return self.convert(r.v, rt, sub.scope)
                return sc
            if nd.sk == "function":
                self.at(nd, sc)
                self.fail("NoReturn", f"function {nd.name} ends without return")
            return sc
        finally:
            self.depth -= 1
            self.loc = save

    def tabulate(self, sub, par, dg, caller_scope, node):
        """function of one character applied to a symbolic digit: the ten results"""
        rs = [self.call_sub(sub, {par: Chr(str(i))}, caller_scope, node) for i in range(10)]
        if all(isinstance(r, bool) for r in rs):
            if len(set(rs)) == 1:
                return rs[0]
        elif all(isinstance(r, int) for r in rs):
            m = rs[1] - rs[0]
            if all(r == rs[0] + m * i for i, r in enumerate(rs)):
                return DI(self.c.norm(dg.e * m + rs[0]))
        elif all(isinstance(r, Chr) for r in rs):
            if all(r.c == str(i) for i, r in enumerate(rs)):
                return Chr(dg)
            if len({r.c for r in rs}) == 1:
                return rs[0]
        for i in range(9):
            if self.c.eq0(self.c.norm(dg.e - i)):
                return rs[i]
        return rs[9]

    def call(self, pkg, name, args, kw=None):
        """API entry"""
        sc = self.pkgs[pkg]
        hit = None
        for s in sc.subs.get(name, []):
            g = self.bind(s, args, kw or {})
            if g is not None:
                hit = (s, g)
                break
        if hit is None:
            return None
        return (self.call_sub(hit[0], hit[1], sc),)

    # ================================================================ statements
    def stmts(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def cond(self, e, sc):
        v = self.eval(e, sc)
        if not isinstance(v, bool):
            if self.is_bitlike(v):
                return self.bit_is(v, "1")
            raise Undecided("condition is not boolean")
        return v

    def stmt(self, s, sc):
        self.at(s, sc)
        k = s.kind
        if k == "if":
            for c, b in s.arms:
                self.at(c, sc)
                if self.cond(c, sc):
                    self.stmts(b, sc)
                    return
            if s.els is not None:
                self.stmts(s.els, sc)
        elif k == "assign":
            ty = self.target_type(s.target, sc)
            v = self.eval(s.e, sc, ty)
            self.at(s, sc)
            self.assign(s.target, v, sc)
        elif k == "return":
            v = None
            if s.e is not None:
                fn = sc
                v = self.eval(s.e, sc, self.ret_type(sc))
            self.c.trace.append(f"{os.path.basename(self.loc[0])}:{s.line} in {self.loc[2]}")
            raise Ret(v)
        elif k == "nullstmt":
            pass
        elif k == "case":
            self.case(s, sc)
        elif k == "for":
            self.for_(s, sc)
        elif k == "while":
            n = sym = 0
            while True:
                p0 = self.c.pos
                if not (s.cond is None or self.cond(s.cond, sc)):
                    break
                sym += self.c.pos > p0
                if sym > 5:
                    raise Undecided("loop of symbolic length")
                n += 1
                if n > 4000:
                    raise Undecided("loop bound")
                try:
                    self.stmts(s.body, sc)
                except NextLoop as x:
                    if x.label not in (None, s.label):
                        raise
                except ExitLoop as x:
                    if x.label not in (None, s.label):
                        raise
                    break
                self.at(s, sc)
        elif k in ("exit", "next"):
            if s.cond is None or self.cond(s.cond, sc):
                raise (ExitLoop if k == "exit" else NextLoop)(s.label)
        elif k == "assert":
            ok = self.cond(s.cond, sc) if s.cond is not None else False
            if not ok:
                sev = self.sev(s, sc)
                if sev in ("error", "failure"):
                    self.at(s, sc)
                    self.fail("Assertion", self.msg(s.msg, sc))
                if sev == "warning":
                    self.c.events.append(("warn", self.where()))
        elif k == "pcall":
            self.pcall(s.e, sc)
        else:
            raise Undecided("statement " + k + (": " + s.why if k == "broken" else ""))

    def ret_type(self, sc):
        s = sc
        while s is not None:
            for d in getattr(s.parent, "subs", {}).get(s.name, []) if s.parent else []:
                try:
                    return self.resolve(d.node.ret, d.scope)
                except Undecided:
                    return None
            s = s.parent
        return None

    def sev(self, s, sc):
        if s.sev is None:
            return "note" if s.cond is None else "error"
        if s.sev.kind == "name" and s.sev.id in ("note", "warning", "error", "failure"):
            return s.sev.id
        raise Undecided("severity")

    def msg(self, e, sc):
        if e is None:
            return ""
        if e.kind == "str":
            return e.v
        if e.kind == "bin" and e.op == "&":
            return self.msg(e.l, sc) + self.msg(e.r, sc)
        return "..."

    def pcall(self, e, sc):
        f, args = (e.f, e.args) if e.kind == "call" else (e, [])
        if f.kind != "name":
            raise Undecided("procedure call")
        pos, kw = self.args(args, sc)
        hit = self.find(f.id, sc, pos, kw)
        if hit is None:
            if f.id in ("write", "writeline", "print", "report", "deallocate"):
                return
            raise Undecided(f"procedure {f.id}")
        sub, got = hit
        inner = self.call_sub(sub, got, sc)
        byname = {}
        for p, (nm, a) in zip(sub.node.params, args):
            byname[p.name if nm is None else nm.id] = a
        for p in sub.node.params:
            if p.mode in ("out", "inout") and p.name in byname:
                self.assign(byname[p.name], inner.names[p.name].value, sc)

    def case(self, s, sc):
        v = self.eval(s.e, sc)
        for ch, b in s.alts:
            for x in ch:
                if x.kind == "others":
                    self.stmts(b, sc)
                    return
                if x.kind == "range":
                    lo, hi = self.eval(x.left, sc), self.eval(x.right, sc)
                    if x.dir == "downto":
                        lo, hi = hi, lo
                    if isinstance(v, Chr):
                        hit = self.order(">=", v, lo) and self.order("<=", v, hi)
                    else:
                        hit = self.ge_i(v, lo) and self.ge_i(hi, v)
                    if hit:
                        self.stmts(b, sc)
                        return
                    continue
                w = self.eval(x, sc, self.type_of(v))
                if self.equal(v, w):
                    self.stmts(b, sc)
                    return
        self.fail("CaseChoice", "no choice matches")

    def type_of(self, v):
        if isinstance(v, Vec):
            return Ty(v.tm)
        if isinstance(v, Bit):
            return Ty("std_logic")
        return None

    def for_(self, s, sc):
        l, r, dr = self.drange(s.range, sc)
        if isinstance(l, tuple):
            vals = [En(l[1].name, x) for x in l[1].def_.lits] if l[0] == "enum" else [False, True]
        else:
            n = self.rlen(l, r, dr)
            try:
                n = self.cint(n)
            except Undecided:
                try:
                    return self.sym_loop(s, sc, l, r, dr)
                except NoPattern as u:
                    # only short loops are unrolled, the rest of the cells stays undecided
                    for k in range(5):
                        if self.c.lin_eq0(self.c.lin(self.L(n) - k)):
                            n = k
                            break
                    else:
                        raise Undecided(str(u))
            if n == 0:
                return
            vals = [self.norm_i(self.L(l) + (i if dr == "to" else -i)) for i in range(n)]
        if len(vals) > 4000:
            raise Undecided("loop bound")
        for x in vals:
            inner = Scope("", sc)
            inner.names[s.var] = Obj(x, Ty("integer"), "constant", s.var)
            try:
                self.stmts(s.body, inner)
            except NextLoop as y:
                if y.label not in (None, s.label):
                    raise
            except ExitLoop as y:
                if y.label not in (None, s.label):
                    raise
                break

    def sym_loop(self, s, sc, l, r, dr):
        """loop over the index range of a vector of symbolic length whose body maps each element separately:
        the body is analysed for both values of the element"""
        reads, writes = set(), set()

        def walk(x, target=False):
            if isinstance(x, N):
                if x.kind == "call" and x.f.kind == "name" and len(x.args) == 1 and x.args[0][1].kind == "name" and x.args[0][1].id == s.var:
                    o = sc.lookup(x.f.id)
                    if isinstance(o, Obj) and isinstance(o.value, Vec):
                        (writes if target else reads).add(x.f.id)
                        return
                if x.kind == "name" and x.id == s.var:
                    raise NoPattern("loop of symbolic length")
                if x.kind == "assign":
                    walk(x.target, True)
                    walk(x.e)
                    return
                for k2, y in x.__dict__.items():
                    if k2 not in ("kind", "line"):
                        walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(s.body)
        if len(reads) != 1 or len(writes) != 1 or reads == writes:
            raise NoPattern("loop of symbolic length")
        xn, tn = reads.pop(), writes.pop()
        xo, to = sc.lookup(xn), sc.lookup(tn)
        for o in (xo, to):
            p, q, d2 = self.bounds(o.value)
            p, q = (p, q) if d2 == dr else (q, p)
            for p, q in ((p, l), (q, r)):
                if not self.c.lin_eq0(self.c.lin(self.L(p) - self.L(q))):
                    raise NoPattern("loop of symbolic length: ranges differ")
        if xo.value.dir != to.value.dir:
            raise NoPattern("loop of symbolic length: directions differ")
        res = []
        for b in "01":
            old = self.hook
            self.hook = {"var": s.var, "x": xn, "t": tn, "bit": b, "out": None}
            inner = Scope("", sc)
            inner.names[s.var] = Obj(("loopvar",), None, "constant", s.var)
            snap = {k: v.value for k, v in sc.names.items() if isinstance(v, Obj)}
            try:
                self.stmts(s.body, inner)
                res.append(self.hook["out"])
            finally:
                self.hook = old
            for k, v in snap.items():
                if sc.names[k].value is not v:
                    raise Undecided("loop of symbolic length with state")
        if res[0] not in ("0", "1") or res[1] not in ("0", "1"):
            raise Undecided("loop of symbolic length: partial result")
        e = self.pat(xo.value)
        n = self.norm_i(self.vlen(xo.value))
        if res == ["0", "1"]:
            val = e
        elif res == ["1", "0"]:
            val = self.c.norm(-e - 1)
        elif res == ["1", "1"]:
            val = Expr.pow2(self.c.lin(self.L(n))) - 1
        else:
            val = Expr()
        tv = to.value
        to.value = Vec([(n, val)], tv.left, tv.right, tv.dir, tv.tm)

    # ---------------------------------------------------------------- assignment
    def obj_of(self, t, sc):
        if t.kind == "paren":
            return self.obj_of(t.e, sc)
        if t.kind == "name":
            o = sc.lookup(t.id)
            if isinstance(o, Obj):
                if o.cls in ("constant",):
                    raise Undecided(f"assignment to constant {t.id}")
                if o.cls == "alias":
                    raise Undecided("assignment through an alias")
                return o
        raise Undecided("assignment target")

    def target_type(self, t, sc):
        try:
            if t.kind == "name":
                o = sc.lookup(t.id)
                return o.ty if isinstance(o, Obj) else None
            if t.kind == "sel":
                v = self.eval(t.e, sc)
                if isinstance(v, Rec):
                    d = sc.lookup(v.type)
                    for n, ty in d[1].def_.fields:
                        if n == t.f:
                            return self.resolve(ty, sc)
            if t.kind == "call" and len(t.args) == 1:
                v = self.eval(t.f, sc)
                a = t.args[0][1]
                if isinstance(v, Vec):
                    if a.kind in ("range",) or a.kind == "attr" and a.a in ("range", "reverse_range") or a.kind == "rangeof":
                        l, r, dr = self.drange(a, sc)
                        return Ty(v.tm, (l, r, dr))
                    return Ty("std_logic")
        except Undecided:
            pass
        return None

    def assign(self, t, v, sc):
        c = self.c
        if t.kind == "paren":
            return self.assign(t.e, v, sc)
        if t.kind == "agg":
            raise Undecided("assignment to an aggregate")
        if t.kind == "name":
            o = self.obj_of(t, sc)
            o.value = self.convert(v, o.ty, sc)
            return
        if t.kind == "sel":
            o = self.obj_of(t.e, sc)
            if not isinstance(o.value, Rec):
                raise Undecided("selected target")
            d = sc.lookup(o.value.type)
            for n, ty in d[1].def_.fields:
                if n == t.f:
                    f = dict(o.value.f)
                    f[n] = self.convert(v, self.resolve(ty, sc), sc)
                    o.value = Rec(o.value.type, f)
                    return
            raise Undecided("record field")
        if t.kind == "call" and len(t.args) == 1:
            a = t.args[0][1]
            if self.hook and t.f.kind == "name" and t.f.id == self.hook["t"] and a.kind == "name" and a.id == self.hook["var"]:
                self.hook["out"] = self.bit_conc(v)
                return
            o = self.obj_of(t.f, sc)
            w = o.value
            if a.kind == "range" or a.kind == "rangeof" or a.kind == "attr" and a.a in ("range", "reverse_range"):
                l, r, dr = self.drange(a, sc)
                if isinstance(w, St):
                    self.str_assign(o, l, r, dr, v)
                    return
                if not isinstance(w, Vec):
                    raise Undecided("slice target")
                v = self.as_vec(v, w.tm)
                if v.tm not in (None, w.tm):
                    raise Undecided("types of slice assignment")
                lo, wd = self.slice_pos(w, l, r, dr)
                if not self.eq_i(self.norm_i(self.c.lin(self.L(wd))), self.norm_i(self.vlen(v))):
                    self.fail("LengthMismatch", "lengths of the slice and of the value do not match")
                self.replace(o, lo, wd, v.segs)
                return
            i = self.eval(a, sc)
            if isinstance(w, St):
                l, r, dr = self.bounds(w)
                p = self.cint(i) - l if dr == "to" else l - self.cint(i)
                if not 0 <= p < len(w.chars):
                    self.fail("IndexOutOfRange", "index of a string")
                ch = list(w.chars)
                ch[p] = v.c if isinstance(v, Chr) else v
                o.value = St(ch, w.left, w.dir)
                return
            if isinstance(w, ArrV):
                p = self.cint(i) - w.left if w.dir == "to" else w.left - self.cint(i)
                if not 0 <= p < len(w.els):
                    self.fail("IndexOutOfRange", "index of an array")
                els = list(w.els)
                els[p] = v
                o.value = ArrV(w.type, els, w.left, w.dir)
                return
            if not isinstance(w, Vec):
                raise Undecided("indexed target")
            p = self.pos(w, i)
            if not self.is_bitlike(v):
                raise Undecided("element assignment")
            if isinstance(v, Chr):
                v = Bit(v.c)
            e = None if not isinstance(v.v, Expr) and v.v not in "01LH" else self.bit_expr(v)
            self.replace(o, p, 1, [(1, e)])
            return
        raise Undecided("assignment target " + t.kind)

    def replace(self, o, lo, wd, segs):
        w = o.value
        n = self.vlen(w)
        lo, wd = self.c.lin(self.L(lo)), self.c.lin(self.L(wd))
        low = [] if self.c.lin_eq0(lo) else self.extract(w, 0, lo)
        lo, wd, n = self.c.lin(lo), self.c.lin(wd), self.c.lin(n)
        top = self.c.lin(lo + wd)
        high = [] if self.c.lin_eq0(self.c.lin(n - top)) else self.extract(w, top, self.c.lin(n - top))
        o.value = Vec(self.merge(low + list(segs) + high), w.left, w.right, w.dir, w.tm)

    def str_assign(self, o, l, r, dr, v):
        w = o.value
        l, r = self.cint(l), self.cint(r)
        n = max(0, r - l + 1 if dr == "to" else l - r + 1)
        if isinstance(v, Chr):
            v = St([v.c])
        if n != len(v.chars):
            self.fail("LengthMismatch", "lengths of the slice and of the value do not match")
        if n == 0:
            return
        p = l - w.left if w.dir == "to" else w.left - l
        if not (0 <= p and p + n <= len(w.chars)):
            self.fail("IndexOutOfRange", "slice of a string")
        ch = list(w.chars)
        ch[p:p + n] = v.chars
        o.value = St(ch, w.left, w.dir)

    # ================================================================ expressions
    def args(self, args, sc):
        pos, kw = [], {}
        for nm, a in args:
            if a.kind == "agg":
                v = Agg(a, sc)
            elif a.kind == "open":
                continue
            else:
                v = self.eval(a, sc)
            if nm is None:
                pos.append(v)
            else:
                if nm.kind != "name":
                    raise Undecided("formal")
                kw[nm.id] = v
        return pos, kw

    def eval(self, e, sc, ty=None):
        k = e.kind
        if k == "int":
            return e.v
        if k == "real":
            return R(Expr.const(Fraction(float(e.v))))
        if k == "chr":
            return Chr(e.v)
        if k == "str":
            return St(e.v, lit=True)
        if k == "bits":
            return self.bitstring(e)
        if k == "paren":
            return self.eval(e.e, sc, ty)
        if k == "name":
            return self.name(e, sc)
        if k == "sel":
            return self.sel(e, sc)
        if k == "call":
            return self.ecall(e, sc, ty)
        if k == "attr":
            return self.attr(e, sc)
        if k == "agg":
            if ty is None:
                return Agg(e, sc)
            return self.aggregate(e, sc, ty)
        if k == "qual":
            t = self.resolve(N("subtype_ind", e.line, mark=e.mark.id, con=None), sc)
            v = self.eval(e.e, sc, t)
            if isinstance(v, Agg):
                v = self.aggregate(v.node, v.scope, t)
            return self.convert(v, t, sc)
        if k == "un":
            return self.unary(e, sc, ty)
        if k == "bin":
            return self.binary(e, sc, ty)
        raise Undecided("expression " + k)

    def bitstring(self, e):
        base, txt = e.v.split('"')[0].lower(), e.v.split('"')[1].replace("_", "")
        bits = {"x": 4, "b": 1, "o": 3}.get(base)
        if bits is None:
            raise Undecided("bit string literal")
        s = ""
        for ch in txt:
            s += format(int(ch, 16), f"0{bits}b") if bits > 1 else ch
        return St(s, lit=True)

    def name(self, e, sc):
        n = e.id
        o = sc.lookup(n)
        if isinstance(o, Obj):
            return o.value
        if isinstance(o, tuple):
            if o[0] == "value":
                return o[1]
            if o[0] == "lazy":
                s = o[2]
                save = self.loc
                obj = self.make_obj(o[1], s)
                self.loc = save
                s.names[n] = obj
                return obj.value
            if o[0] == "lazyalias":
                return self.eval(o[1].value, o[2])
        if n in ("true", "false"):
            return n == "true"
        hit = self.find(n, sc, [], {})
        if hit:
            return self.call_sub(hit[0], hit[1], sc, e)
        if n in ("note", "warning", "error", "failure"):
            return En("severity_level", n)
        if n.startswith("math_"):
            raise Undecided("math constant")
        raise Undecided(f"unknown name {n}")

    def sel(self, e, sc):
        # package-qualified name?
        x = e
        parts = []
        while x.kind == "sel":
            parts.append(x.f)
            x = x.e
        if x.kind == "name":
            parts.append(x.id)
            parts.reverse()
            if sc.lookup(parts[0]) is None:
                for i in range(len(parts) - 1):
                    if parts[i] in self.pkgs:
                        return self.name(N("name", e.line, id=parts[i + 1]), self.pkgs[parts[i]])
        v = self.eval(e.e, sc)
        if isinstance(v, Rec):
            if e.f not in v.f:
                raise Undecided(f"record field {e.f}")
            return v.f[e.f] if not isinstance(v.f[e.f], Lin) else self.norm_i(v.f[e.f])
        raise Undecided("selected name")

    def attr(self, e, sc):
        a = e.a
        if e.e.kind == "name" and not isinstance(sc.lookup(e.e.id), Obj):
            if a in ("image", "pos", "val", "succ", "pred", "high", "low", "left", "right", "value"):
                return ("tattr", e.e.id, a)
        v = self.eval(e.e, sc)
        l, r, dr = self.bounds(v)
        if a == "length":
            if isinstance(v, Vec):
                return self.norm_i(self.vlen(v))
            return len(v.chars) if isinstance(v, St) else len(v.els)
        if a == "left":
            return self.norm_i(l)
        if a == "right":
            return self.norm_i(r)
        if a == "high":
            return self.norm_i(l if dr == "downto" else r)
        if a == "low":
            return self.norm_i(r if dr == "downto" else l)
        if a == "ascending":
            return dr == "to"
        raise Undecided(f"attribute {a}")

    def tattr(self, t, a, args, sc):
        x = args[0] if args else None
        if a == "image":
            if isinstance(x, (int, Lin, DI)) and not isinstance(x, bool):
                if isinstance(x, DI):
                    for e, chars in self.dnums:
                        d = self.c.norm(self.c.norm(x.e) - e)
                        if d.as_const() == 0:
                            return St(chars)
                    if self.dnums:
                        raise Undecided("'image of a symbolic number")
                return St(str(self.cint(x)))
            if isinstance(x, En):
                return St(x.name)
            if isinstance(x, bool):
                return St(str(x).lower())
            raise Undecided("'image")
        if a == "pos":
            if t in ("std_logic", "std_ulogic"):
                return SL.index(self.bit_conc(x))
            if t == "boolean":
                return int(x)
            if t == "character":
                return ord(x.c) if isinstance(x.c, str) else DI(x.c.e + 48)
            d = sc.lookup(t)
            if isinstance(d, tuple) and d[0] == "type" and isinstance(x, En):
                return d[1].def_.lits.index(x.name)
            if t in INTS:
                return x
        if a == "val":
            i = self.cint(x)
            if t == "boolean":
                return bool(i)
            if t == "character":
                return Chr(chr(i))
            if t in ("std_logic", "std_ulogic"):
                return Bit(SL[i])
            d = sc.lookup(t)
            if isinstance(d, tuple) and d[0] == "type":
                return En(t, d[1].def_.lits[i])
        raise Undecided(f"attribute {t}'{a}")

    def aggregate(self, e, sc, ty):
        b = ty.base
        if b in VECS:
            els = e.els
            n = None
            if ty.con:
                l, r, dr = ty.con
                n = self.rlen(l, r, dr)
            oth = [x for ch, x in els if ch is not None and any(y.kind == "others" for y in ch)]
            pos = [x for ch, x in els if ch is None]
            named = [(ch, x) for ch, x in els if ch is not None and not any(y.kind == "others" for y in ch)]
            if n is None:
                if oth or named:
                    raise Undecided("aggregate without constraint")
                n, l, r, dr = len(pos), 0, len(pos) - 1, "to"
            if oth:
                v = self.eval(oth[0], sc)
                ch = self.bit_conc(v)
                if ch in "1H":
                    base = Expr.pow2(self.c.lin(self.L(n))) - 1
                elif ch in "0L":
                    base = Expr()
                else:
                    base = None
            else:
                base = None
            o = Obj(Vec([(n, base)], l, r, dr, b), ty, "variable", "aggregate")
            for i, x in enumerate(pos):
                idx = self.norm_i(self.L(l) + (i if dr == "to" else -i))
                o2 = N("call", e.line, f=N("name", e.line, id="#agg"), args=[(None, N("int", e.line, v=0))])
                v = self.eval(x, sc)
                p = self.pos(o.value, idx)
                self.replace(o, p, 1, [(1, self.bit_expr(v))])
            for ch, x in named:
                v = self.eval(x, sc)
                for y in ch:
                    if y.kind == "range":
                        raise Undecided("aggregate with ranges")
                    p = self.pos(o.value, self.eval(y, sc))
                    self.replace(o, p, 1, [(1, self.bit_expr(v))])
            if pos and not oth and not named and not self.eq_i(len(pos), n):
                self.fail("LengthMismatch", "aggregate")
            return o.value
        if ty.decl is not None and ty.decl.def_.kind == "record":
            fs = ty.decl.def_.fields
            out = {}
            i = 0
            for ch, x in e.els:
                if ch is None:
                    names = [fs[i][0]]
                    i += 1
                elif any(y.kind == "others" for y in ch):
                    names = [n for n, _ in fs if n not in out]
                else:
                    names = [y.id for y in ch]
                for n in names:
                    t = self.resolve(dict(fs)[n], sc)
                    out[n] = self.convert(self.eval(x, sc, t), t, sc)
            if set(out) != {n for n, _ in fs}:
                raise Undecided("record aggregate")
            return Rec(b, out)
        if ty.decl is not None and ty.decl.def_.kind == "arraytype":
            el = self.resolve(ty.decl.def_.elem, sc)
            if all(ch is None for ch, _ in e.els):
                return ArrV(b, [self.convert(self.eval(x, sc, el), el, sc) for _, x in e.els])
            if ty.con and all(ch is not None for ch, _ in e.els):
                l, r, dr = ty.con
                n = self.cint(self.rlen(l, r, dr))
                els = [None] * n
                for ch, x in e.els:
                    for y in ch:
                        if y.kind == "others":
                            els = [self.convert(self.eval(x, sc, el), el, sc) if z is None else z for z in els]
                        else:
                            p = self.cint(self.eval(y, sc)) - self.cint(l)
                            els[p if dr == "to" else -p] = self.convert(self.eval(x, sc, el), el, sc)
                return ArrV(b, els, self.cint(l), dr)
        if b == "string":
            ch = []
            if ty.con:
                l, r, dr = ty.con
                n = self.cint(self.rlen(l, r, dr))
            for cs, x in e.els:
                if cs is None:
                    ch.append(self.eval(x, sc).c)
                elif any(y.kind == "others" for y in cs) and ty.con:
                    ch += [self.eval(x, sc).c] * (n - len(ch))
                else:
                    raise Undecided("string aggregate")
            return St(ch)
        raise Undecided("aggregate of type " + str(b))

    def ecall(self, e, sc, ty):
        f = e.f
        if f.kind == "attr":
            t = self.attr(f, sc)
            if isinstance(t, tuple) and t[0] == "tattr":
                return self.tattr(t[1], t[2], self.args(e.args, sc)[0], sc)
            raise Undecided("attribute call")
        if f.kind == "name":
            n = f.id
            o = sc.lookup(n)
            if isinstance(o, Obj) or isinstance(o, tuple) and o[0] in ("lazy", "lazyalias"):
                return self.index(e, sc)
            m = n
            if m in VECS or m in INTS or m == "real" or isinstance(o, tuple) and o[0] in ("type", "subtype"):
                if len(e.args) == 1:
                    return self.typeconv(e, n, sc)
            pos, kw = self.args(e.args, sc)
            return self.callname(n, pos, kw, sc, e, ty)
        if f.kind == "sel":
            x = f
            parts = []
            while x.kind == "sel":
                parts.append(x.f)
                x = x.e
            parts.append(x.id if x.kind == "name" else "?")
            parts.reverse()
            if sc.lookup(parts[0]) is None:
                pos, kw = self.args(e.args, sc)
                for i in range(len(parts) - 1):
                    if parts[i] in self.pkgs:
                        hit = self.find(parts[i + 1], self.pkgs[parts[i]], pos, kw)
                        if hit:
                            return self.call_sub(hit[0], hit[1], sc, e)
                r = self.ieee(parts[-1], pos, sc)
                if r is not NotImplemented:
                    return r
                raise Undecided("call of " + ".".join(parts))
        return self.index(e, sc)

    def callname(self, n, pos, kw, sc, e, ty):
        hit = self.find(n, sc, pos, kw)
        if hit:
            return self.call_sub(hit[0], hit[1], sc, e)
        if not kw:
            self.at(e, sc)
            r = self.ieee(n, pos, sc)
            if r is not NotImplemented:
                return r
        hits = sc.functions(n)
        if len(hits) == 1 and not hits[0].node.params:
            pass
        raise Undecided(f"call of {n}({', '.join(type(x).__name__ for x in pos)})")

    def index(self, e, sc):
        self_hook = self.hook
        if len(e.args) != 1:
            raise Undecided("multi-dimensional index")
        a = e.args[0][1]
        if self_hook and e.f.kind == "name" and e.f.id == self_hook["x"] and a.kind == "name" and a.id == self_hook["var"]:
            return Bit(self_hook["bit"])
        v = self.eval(e.f, sc)
        self.at(e, sc)
        if a.kind == "range" or a.kind == "rangeof" or a.kind == "attr" and a.a in ("range", "reverse_range"):
            l, r, dr = self.drange(a, sc)
            if isinstance(v, St):
                l, r = self.cint(l), self.cint(r)
                n = max(0, r - l + 1 if dr == "to" else l - r + 1)
                p = l - v.left if v.dir == "to" else v.left - l
                if n and not (0 <= p and p + n <= len(v.chars)):
                    self.fail("IndexOutOfRange", "slice of a string")
                return St(v.chars[p:p + n] if n else [], l, dr)
            if not isinstance(v, Vec):
                raise Undecided("slice of " + type(v).__name__)
            lo, wd = self.slice_pos(v, l, r, dr)
            if isinstance(wd, int) and wd == 0:
                return Vec([], l, r, dr, v.tm)
            return Vec(self.extract(v, lo, wd), l, r, dr, v.tm)
        i = self.eval(a, sc)
        if isinstance(v, St):
            p = self.cint(i) - v.left if v.dir == "to" else v.left - self.cint(i)
            if not 0 <= p < len(v.chars):
                self.fail("IndexOutOfRange", "index of a string")
            return v.chars[p] if isinstance(v.chars[p], Bit) else Chr(v.chars[p])
        if isinstance(v, ArrV):
            p = self.cint(i) - v.left if v.dir == "to" else v.left - self.cint(i)
            if not 0 <= p < len(v.els):
                self.fail("IndexOutOfRange", "index of an array")
            return v.els[p]
        if isinstance(v, Vec):
            return self.bit_at(v, self.pos(v, i))
        raise Undecided("index of " + type(v).__name__)

    def typeconv(self, e, n, sc):
        t = self.resolve(N("subtype_ind", e.line, mark=n, con=None), sc)
        v = self.eval(e.args[0][1], sc)
        if t.base in VECS:
            if isinstance(v, St):
                v = self.as_vec(v, t.base)
            if not isinstance(v, Vec):
                raise Undecided("vector conversion")
            r = self.retype(v, t.base)
            return self.convert(r, t, sc) if t.con else r
        if t.base in INTS:
            if isinstance(v, R):
                x = self.c.norm(v.e)
                q = self.c.floor1(x)
                x, q = self.c.norm(x), self.c.norm(q)
                if not self.c.eq0(self.c.norm(x - q)):
                    x, q = self.c.norm(x), self.c.norm(q)
                    if self.c.eq0(self.c.norm(x - q - Fraction(1, 2))):
                        raise Undecided("integer() of a half")
                    if self.c.decide(self.c.norm(self.c.norm(x) - self.c.norm(q) - Fraction(1, 2))):
                        q = self.c.norm(q) + 1
                v = self.chk32(DI(self.c.norm(q)))
            return self.convert(v, t, sc)
        if t.base == "real":
            if isinstance(v, R):
                return v
            return R(self.E(v))
        return self.convert(v, t, sc)

    def chk32(self, v):
        e = self.c.norm(v.e)
        k = e.as_const()
        if k is not None:
            if not -2 ** 31 <= k < 2 ** 31:
                self.fail("Overflow", "integer overflow")
            return int(k)
        if not self.c.decide(self.c.norm(Expr.const(2 ** 31 - 1) - e)) or not self.c.decide(self.c.norm(self.c.norm(e) + 2 ** 31)):
            self.fail("Overflow", "integer overflow")
        return DI(self.c.norm(e))

    # ---------------------------------------------------------------- operators
    def unary(self, e, sc, ty):
        v = self.eval(e.e, sc, ty)
        op = e.op
        self.at(e, sc)
        if isinstance(v, Agg):
            raise Undecided("operator on an aggregate")
        hit = self.find('"' + op + '"', sc, [v], {})
        if hit:
            return self.call_sub(hit[0], hit[1], sc, e)
        c = self.c
        if op == "not":
            if isinstance(v, bool):
                return not v
            if self.is_bitlike(v):
                if isinstance(v, Chr):
                    v = Bit(v.c)
                if isinstance(v.v, Expr):
                    return Bit(c.norm(1 - c.norm(v.v)))
                return Bit({"0": "1", "1": "0", "L": "1", "H": "0", "U": "U"}.get(v.v, "X"))
            if isinstance(v, (Vec, St)):
                v = self.as_vec(v)
                return Vec([(w, None if x is None else c.norm(-c.norm(x) - 1)) for w, x in v.segs], v.left, v.right, v.dir, v.tm)
        if op in ("-", "+", "abs"):
            if isinstance(v, R):
                x = c.norm(v.e)
                if op == "-" or op == "abs" and not c.decide(x):
                    return R(c.norm(-c.norm(x)))
                return R(c.norm(x))
            if isinstance(v, (int, Lin)) and not isinstance(v, bool):
                if op == "-":
                    return -v
                if op == "abs":
                    return self.norm_i(self.L(v)) if self.ge_i(v, 0) else self.norm_i(-self.L(v))
                return v
            if isinstance(v, DI):
                if op == "-" or op == "abs" and not c.decide(c.norm(v.e)):
                    return self.chk32(DI(c.norm(-c.norm(v.e))))
                return v
            if isinstance(v, Vec) and v.tm == "signed":
                n = self.vlen(v)
                x = self.pat(v)
                if op == "abs":
                    x = self.sval(v)
                    if c.decide(c.norm(x)):
                        return self.mkvec(c.norm(x), c.lin(n), "signed")
                if op != "+":
                    return self.mkvec(c.norm(-c.norm(x)), c.lin(n), "signed")
        if op.startswith("reduce_") and isinstance(v, Vec):
            k = op[7:]
            x = self.uval(v)
            n = self.vlen(v)
            if k in ("or", "nor"):
                z = c.eq0(c.norm(x))
                return Bit("1" if (not z) == (k == "or") else "0")
            if k in ("and", "nand"):
                z = c.eq0(c.norm(c.norm(x) - Expr.pow2(c.lin(n)) + 1))
                return Bit("1" if z == (k == "and") else "0")
        raise Undecided(f"unary {op} on {type(v).__name__}")

    def binary(self, e, sc, ty):
        op = e.op
        c = self.c
        if op in ("and", "or", "nand", "nor"):
            a = self.eval(e.l, sc, ty)
            if isinstance(a, bool):           # short-circuit
                if op in ("and", "nand") and not a:
                    return op == "nand"
                if op in ("or", "nor") and a:
                    return op == "or"
                b = self.eval(e.r, sc, ty)
                if not isinstance(b, bool):
                    raise Undecided("logical operator")
                return b if op in ("and", "or") else not b
        else:
            tl = ty if op in ("+", "-", "xor", "xnor") else None
            a = self.eval(e.l, sc, tl)
        b = self.eval(e.r, sc, self.type_of(a) if isinstance(a, (Vec,)) and e.r.kind == "agg" else None)
        if isinstance(a, Agg) or isinstance(b, Agg):
            if isinstance(a, Rec) or isinstance(b, Rec):
                r = a if isinstance(a, Rec) else b
                t = Ty(r.type, None, sc.lookup(r.type)[1])
                a = self.aggregate(a.node, sc, t) if isinstance(a, Agg) else a
                b = self.aggregate(b.node, sc, t) if isinstance(b, Agg) else b
            elif isinstance(a, Vec) or isinstance(b, Vec):
                r = a if isinstance(a, Vec) else b
                t = Ty(r.tm, (r.left, r.right, r.dir))
                a = self.aggregate(a.node, sc, t) if isinstance(a, Agg) else a
                b = self.aggregate(b.node, sc, t) if isinstance(b, Agg) else b
            else:
                raise Undecided("operator on an aggregate")
        self.at(e, sc)
        hit = self.find('"' + op + '"', sc, [a, b], {})
        if hit:
            return self.call_sub(hit[0], hit[1], sc, e)
        if op == "&":
            return self.concat(a, b)
        if op in ("=", "/="):
            r = self.equal(a, b)
            return r if op == "=" else not r
        if op in ("<", "<=", ">", ">="):
            return self.order(op, a, b)
        if op in ("and", "or", "xor", "nand", "nor", "xnor"):
            return self.logic(op, a, b)
        if op in ("+", "-", "*", "/", "mod", "rem", "**"):
            return self.arith(op, a, b)
        if op in ("sll", "srl"):
            return self.ieee("shift_left" if op == "sll" else "shift_right", [a, b], sc)
        raise Undecided(f"operator {op}")

    def concat(self, a, b):
        if isinstance(a, (St, Chr)) and isinstance(b, (St, Chr)) and not (
                False):
            x = a.chars if isinstance(a, St) else [a.c]
            y = b.chars if isinstance(b, St) else [b.c]
            lit = (not isinstance(a, St) or a.lit) and (not isinstance(b, St) or b.lit)
            return St(x + y, 1, "to", lit=lit)
        if isinstance(a, St) and a.lit and self.is_bitlike(b) or isinstance(b, St) and b.lit and self.is_bitlike(a) \
                or self.is_bitlike(a) and self.is_bitlike(b) or isinstance(a, Vec) or isinstance(b, Vec):
            def segs(x):
                if self.is_bitlike(x):
                    if isinstance(x, Chr):
                        x = Bit(x.c)
                    if not isinstance(x.v, Expr) and x.v not in "01LH":
                        return [(1, None)]
                    return [(1, self.bit_expr(x))]
                return self.as_vec(x, None).segs
            tm = a.tm if isinstance(a, Vec) else b.tm if isinstance(b, Vec) else None
            s = self.merge(list(segs(b)) + list(segs(a)))
            v = Vec(s, 0, 0, "to", tm)
            n = self.vlen(v)
            if isinstance(a, Vec) and not self.c.lin_eq0(self.vlen(a)):
                v.left, v.dir = a.left, a.dir
            elif isinstance(b, Vec) and isinstance(a, (Vec, St)):
                v.left, v.dir = b.left, b.dir
            n = self.c.lin(n)
            v.right = self.norm_i(self.L(v.left) + n - 1 if v.dir == "to" else self.L(v.left) - n + 1)
            return v
        if isinstance(a, St) and isinstance(b, Bit) or isinstance(b, St) and isinstance(a, Bit):
            raise Undecided("concatenation of string and std_logic")
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return ArrV(a.type, a.els + b.els, a.left, a.dir)
        raise Undecided(f"concatenation of {type(a).__name__} and {type(b).__name__}")

    def equal(self, a, b):
        c = self.c
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if isinstance(a, (int, Lin, DI)) and isinstance(b, (int, Lin, DI)):
            return self.eq_i(a, b)
        if isinstance(a, R) and isinstance(b, R):
            return c.eq0(c.norm(c.norm(a.e) - c.norm(b.e)))
        if isinstance(a, En) and isinstance(b, En):
            return a == b
        if self.is_bitlike(a) and self.is_bitlike(b):
            if isinstance(b, Chr) or not isinstance(b.v, Expr):
                return self.bit_is(a, b.c if isinstance(b, Chr) else b.v)
            if isinstance(a, Chr) or not isinstance(a.v, Expr):
                return self.bit_is(b, a.c if isinstance(a, Chr) else a.v)
            return c.eq0(c.norm(c.norm(a.v) - c.norm(b.v)))
        if isinstance(a, Chr) and isinstance(b, Chr):
            return self.char_eq(a.c, b.c)
        if isinstance(a, St) and isinstance(b, St):
            return len(a.chars) == len(b.chars) and all(self.char_eq(x, y) for x, y in zip(a.chars, b.chars))
        if isinstance(a, Rec) and isinstance(b, Rec):
            return all(self.equal(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, Vec) or isinstance(b, Vec):
            if isinstance(a, St):
                a = self.as_vec(a, b.tm)
            if isinstance(b, St):
                b = self.as_vec(b, a.tm)
            if isinstance(a, Vec) and isinstance(b, Vec):
                t = a.tm or b.tm
                la, lb = self.norm_i(self.vlen(a)), self.norm_i(self.vlen(b))
                if t == "std_logic_vector" and not self.eq_i(la, lb):
                    return False
                x, y = (self.sval(a), self.sval(b)) if t == "signed" else (self.uval(a), self.uval(b))
                return c.eq0(c.norm(c.norm(x) - c.norm(y)))
            v, i = (a, b) if isinstance(a, Vec) else (b, a)
            if isinstance(i, (int, Lin, DI)):
                x = self.sval(v) if v.tm == "signed" else self.uval(v)
                return c.eq0(c.norm(c.norm(x) - self.E(i)))
        raise Undecided(f"equality of {type(a).__name__} and {type(b).__name__}")

    def order(self, op, a, b):
        c = self.c
        if op in ("<", "<="):
            # a < b  ==  not (a >= b);  a <= b  ==  b >= a
            if op == "<":
                return not self.geq(a, b)
            return self.geq(b, a)
        if op == ">":
            return not self.geq(b, a)
        return self.geq(a, b)

    def geq(self, a, b):
        c = self.c
        if isinstance(a, (int, Lin, DI)) and isinstance(b, (int, Lin, DI)):
            return self.ge_i(a, b)
        if isinstance(a, R) and isinstance(b, R):
            return c.decide(c.norm(c.norm(a.e) - c.norm(b.e)))
        if isinstance(a, En) and isinstance(b, En):
            raise Undecided("order of enumeration values")
        if isinstance(a, Chr) and isinstance(b, Chr):
            if not isinstance(a.c, str) or not isinstance(b.c, str):
                f = lambda x: Expr.const(ord(x)) if isinstance(x, str) else x.e + 48
                return c.decide(c.norm(f(a.c) - f(b.c)))
            return a.c >= b.c
        if isinstance(a, Vec) or isinstance(b, Vec):
            t = a.tm if isinstance(a, Vec) else b.tm
            if t == "std_logic_vector" or t is None:
                if not (isinstance(a, Vec) and isinstance(b, Vec) and self.eq_i(self.norm_i(self.vlen(a)), self.norm_i(self.vlen(b)))):
                    raise Undecided("order of std_logic_vector")
            f = self.sval if t == "signed" else self.uval

            def val(x):
                if isinstance(x, St):
                    x = self.as_vec(x, t)
                if isinstance(x, Vec):
                    return f(x)
                return self.E(x)
            x = val(a)
            y = val(b)
            return c.decide(c.norm(c.norm(x) - c.norm(y)))
        raise Undecided(f"order of {type(a).__name__} and {type(b).__name__}")

    def logic(self, op, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return {"xor": a != b, "xnor": a == b}[op]
        if self.is_bitlike(a) and self.is_bitlike(b):
            x, y = self.bit_conc(a), self.bit_conc(b)
            if x in "LH":
                x = "01"["LH".index(x)]
            if y in "LH":
                y = "01"["LH".index(y)]
            if x not in "01" or y not in "01":
                if op in ("and", "nand") and "0" in (x, y):
                    return Bit("0" if op == "and" else "1")
                if op in ("or", "nor") and "1" in (x, y):
                    return Bit("1" if op == "or" else "0")
                return Bit("X")
            p, q = x == "1", y == "1"
            r = {"and": p and q, "or": p or q, "xor": p != q, "nand": not (p and q), "nor": not (p or q), "xnor": p == q}[op]
            return Bit("1" if r else "0")
        raise Undecided(f"{op} on {type(a).__name__} and {type(b).__name__}")

    def arith(self, op, a, b):
        c = self.c
        ia = isinstance(a, (int, Lin, DI)) and not isinstance(a, bool)
        ib = isinstance(b, (int, Lin, DI)) and not isinstance(b, bool)
        if ia and ib:
            return self.iarith(op, self.norm_i(a), self.norm_i(b))
        if isinstance(a, R) and op == "**" and ib:
            k = c.norm(a.e).as_const()
            n = self.norm_i(b)
            if k is not None and k > 0:
                from num import _v2
                o, s = _v2(k)
                if o == 1:
                    return R(Expr.pow2(self.L(n) * s)) if not isinstance(n, int) or abs(n * s) < 100000 else R(Expr.const(Fraction(2) ** (n * s)))
            if isinstance(n, int) and 0 <= n <= 4:
                r = R(Expr.const(1))
                for _ in range(n):
                    r = self.arith("*", r, a)
                return r
            raise Undecided("real power")
        if isinstance(a, R) and isinstance(b, R):
            x, y = c.norm(a.e), c.norm(b.e)
            if op == "+":
                return R(c.fl(x + y, "+"))
            if op == "-":
                return R(c.fl(x - y, "-"))
            if op == "*":
                return R(c.fl(x * y, "*"))
            if op == "/":
                p = y.as_pow2()
                if p is None or p[0] not in (1, -1):
                    raise Undecided("real division")
                return R(c.fl(x.shift(-p[1]) * p[0], "/"))
            if op == "**":
                p = y.as_const()
                if p is not None and p.denominator == 1:
                    return self.arith("**", a, int(p))
            if op == "mod":
                q = self.arith("/", a, b)
                q = R(c.floor1(c.norm(q.e)))
                return self.arith("-", a, self.arith("*", b, q))
            raise Undecided("real " + op)
        if (isinstance(a, R) and ib or isinstance(b, R) and ia) and op in ("*", "/"):
            # universal real with universal integer
            a = a if isinstance(a, R) else R(self.E(a))
            b = b if isinstance(b, R) else R(self.E(b))
            return self.arith(op, a, b)
        if isinstance(a, St) and isinstance(b, Vec):
            a = self.as_vec(a, b.tm)
        if isinstance(b, St) and isinstance(a, Vec):
            b = self.as_vec(b, a.tm)
        if self.is_bitlike(b) and isinstance(a, Vec) and op in "+-":       # VHDL-2008
            b = Vec([(1, self.bit_expr(b))], 0, 0, "downto", "unsigned") if a.tm == "unsigned" else None
        if isinstance(a, Vec) and isinstance(b, Vec):
            t = a.tm or b.tm
            if t == "std_logic_vector" or t is None or (a.tm and b.tm and a.tm != b.tm):
                raise Undecided(f"{op} on {a.tm}, {b.tm}")
            la, lb = self.vlen(a), self.vlen(b)
            sg = t == "signed"
            if op in ("+", "-"):
                if c.lin_eq0(c.lin(la - lb)):
                    x, y, n = self.pat(a), self.pat(b), c.lin(la)
                else:
                    n = c.lin(la) if c.decide_lin(c.lin(la - lb)) else c.lin(lb)
                    x, y = (self.sval(a), self.sval(b)) if sg else (self.uval(a), self.uval(b))
                x, y = c.norm(x), c.norm(y)
                if c.lin_eq0(la) or c.lin_eq0(lb):
                    return Vec([], 0, 1, "to", t)
                return self.mkvec(c.norm(x + y if op == "+" else x - y), c.lin(n), t)
            if op == "*":
                x, y = (self.sval(a), self.sval(b)) if sg else (self.uval(a), self.uval(b))
                if c.lin_eq0(c.lin(la)) or c.lin_eq0(c.lin(lb)):
                    return Vec([], 0, 1, "to", t)
                return self.mkvec(c.norm(c.norm(x) * c.norm(y)), c.lin(la + lb), t)
            raise Undecided("vector " + op)
        v, i, flip = (a, b, False) if isinstance(a, Vec) else (b, a, True)
        if isinstance(v, Vec) and isinstance(i, (int, Lin, DI)) and v.tm in ("unsigned", "signed") and op in ("+", "-"):
            n = self.vlen(v)
            x, y = self.pat(v), self.E(i)
            if op == "+":
                z = x + y
            else:
                z = y - x if flip else x - y
            if v.tm == "unsigned" and not self.ge_i(i, 0):
                self.fail("RangeCheck", "negative natural operand")
            return self.mkvec(c.norm(z), c.lin(n), v.tm)
        raise Undecided(f"{op} on {type(a).__name__} and {type(b).__name__}")

    def iarith(self, op, a, b):
        c = self.c
        if isinstance(a, DI) or isinstance(b, DI):
            x, y = self.E(a), self.E(b)
            if op in ("+", "-", "*"):
                return self.chk32(DI(c.norm(x + y if op == "+" else x - y if op == "-" else x * y)))
            p = y.as_pow2()
            if op in ("/", "mod", "rem") and p is not None and p[0] == 1:
                if op == "mod":
                    return DI(c.norm(c.mod_pow2(x, p[1])))
                neg = not c.decide(x)
                x = c.norm(x)
                q = c.floor_div(c.norm(-x if neg else x), p[1])
                q = c.norm(-q if neg else q)
                if op == "/":
                    return DI(q)
                return DI(c.norm(c.norm(x) - c.norm(q).shift(c.lin(p[1]))))
            if op == "**" and x.as_const() == 2:
                raise Undecided("data-dependent power")
            raise Undecided(f"integer {op} on data")
        if op == "+":
            return self.norm_i(self.L(a) + self.L(b))
        if op == "-":
            return self.norm_i(self.L(a) - self.L(b))
        if op == "*":
            if isinstance(a, int):
                return self.norm_i(self.L(b) * a)
            if isinstance(b, int):
                return self.norm_i(self.L(a) * b)
            raise Undecided("product of format parameters")
        if op == "**":
            if isinstance(b, int):
                if b < 0:
                    self.fail("RangeCheck", "negative exponent")
                if isinstance(a, int):
                    r = a ** b
                    if not -2 ** 31 <= r < 2 ** 31:
                        self.fail("Overflow", "integer overflow")
                    return r
            if isinstance(a, int) and a == 2:
                if not self.ge_i(b, 0):
                    self.fail("RangeCheck", "negative exponent")
                return self.chk32(DI(Expr.pow2(self.L(b))))
            raise Undecided("integer power")
        if op in ("/", "mod", "rem"):
            if isinstance(b, int) and b == 0:
                self.fail("DivisionByZero", "")
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "/" else a - b * q if op == "rem" else a - b * (a // b)
            if isinstance(b, int) and b > 0:
                # split the range of the dividend at the multiples of the divisor
                x = self.L(a)
                if not c.decide_lin(c.lin(x)):
                    q = self.iarith("/", self.norm_i(-c.lin(x)), b)
                    q = -q
                else:
                    lo, hi = c.P.rng(c.lin(x))
                    if hi is None or lo is None or hi - lo > 4000 or hi in (float("inf"),):
                        raise Undecided(f"integer {op} on unbounded format parameters")
                    q, top = int(lo) // b, int(hi) // b
                    while q < top and c.decide_lin(c.lin(x) - (q + 1) * b):
                        q += 1
                if op == "/":
                    return q
                r = self.norm_i(self.L(a) - b * q)
                if op == "mod" and not self.ge_i(r, 0):
                    r = self.norm_i(self.L(r) + b)
                return r
            raise Undecided(f"integer {op} on format parameters")
        raise Undecided("integer " + op)

    # ---------------------------------------------------------------- ieee packages
    def ieee(self, n, a, sc):
        c = self.c
        a = list(a)
        if n == "resize" and len(a) == 2 and isinstance(a[0], (Vec, St)):
            v = self.as_vec(a[0], "unsigned") if isinstance(a[0], St) else a[0]
            size = self.size(a[1])
            n0 = self.vlen(v)
            if c.lin_eq0(c.lin(self.L(size))):
                return Vec([], 0, 1, "to", v.tm)
            if c.lin_eq0(c.lin(n0)):
                return self.mkvec(Expr(), c.lin(self.L(size)), v.tm)
            size = c.lin(self.L(size))
            if v.tm == "unsigned":
                if c.decide_lin(c.lin(n0) - size - 1):
                    return self.mkvec(self.pat(v), c.lin(size), v.tm)
                return self.mkvec(self.uval(v), c.lin(size), v.tm)
            if v.tm == "signed":
                if c.decide_lin(c.lin(size) - c.lin(n0)):
                    return self.mkvec(self.sval(v), c.lin(size), v.tm)
                x = self.sval(v)
                neg = not c.decide(c.norm(x))
                y = self.reduce(c.norm(x), c.lin(size - 1))
                if neg:
                    y = c.norm(c.norm(y) - Expr.pow2(c.lin(size - 1)))
                return self.mkvec(c.norm(y), c.lin(size), v.tm)
            return NotImplemented
        if n == "to_integer" and len(a) == 1 and isinstance(a[0], Vec):
            if c.lin_eq0(self.vlen(a[0])):
                c.events.append(("nswarn", self.where()))
                return 0
            x = self.sval(a[0]) if a[0].tm == "signed" else self.uval(a[0])
            # numeric_std accumulates in an integer variable
            k = c.norm(x).as_const()
            if k is not None:
                return self.chk32(DI(c.norm(x)))
            return self.chk32(DI(c.norm(x)))
        if n in ("to_unsigned", "to_signed") and len(a) == 2:
            size = self.size(a[1])
            if isinstance(a[1], Vec):
                size = self.norm_i(self.vlen(a[1]))
            x = self.E(a[0])
            if n == "to_unsigned" and not c.decide(c.norm(x)):
                self.fail("RangeCheck", "to_unsigned of a negative value")
            if c.lin_eq0(c.lin(self.L(size))):
                return Vec([], 0, 1, "to", n[3:])
            return self.mkvec(c.norm(x), c.lin(self.L(size)), n[3:])
        if n in ("shift_left", "shift_right") and len(a) == 2 and isinstance(a[0], Vec) and a[0].tm in ("unsigned", "signed"):
            k = self.L(a[1])
            if not c.decide_lin(c.lin(k)):
                self.fail("RangeCheck", "negative shift")
            w = self.vlen(a[0])
            if n == "shift_left":
                return self.mkvec(c.norm(self.pat(a[0])).shift(c.lin(k)), w, a[0].tm)
            x = self.sval(a[0]) if a[0].tm == "signed" else self.uval(a[0])
            return self.mkvec(c.floor_div(c.norm(x), c.lin(k)), c.lin(w), a[0].tm)
        if n in ("floor", "ceil", "trunc", "round", "sign") and len(a) == 1 and isinstance(a[0], R):
            x = c.norm(a[0].e)
            if n == "floor":
                return R(c.floor1(x))
            if n == "ceil":
                return R(c.norm(-c.floor1(c.norm(-x))))
            neg = not c.decide(x)
            x = c.norm(x)
            if n == "sign":
                return R(Expr.const(-1 if neg else 0 if c.eq0(x) else 1))
            y = c.norm(-x if neg else x)
            y = c.floor1(y if n == "trunc" else c.norm(y + Fraction(1, 2)))
            return R(c.norm(-c.norm(y) if neg else c.norm(y)))
        if n in ("realmax", "realmin", "maximum", "minimum") and len(a) == 2:
            big = n in ("realmax", "maximum")
            if isinstance(a[0], (int, Lin, DI, R)):
                g = self.geq(a[0], a[1])
                return a[0] if g == big else a[1]
        if n in ("to_x01", "to_01", "to_ux01", "to_x01z", "std_logic_vector", "to_stdlogicvector", "to_slv", "to_bitvector", "is_x") and a:
            if n == "is_x":
                v = a[0]
                if isinstance(v, Vec):
                    return any(e is None for _, e in v.segs)
                return self.is_bitlike(v) and not isinstance(getattr(v, "v", None), Expr) and self.bit_conc(v) not in "01LH"
            if isinstance(a[0], Vec) and all(e is not None for _, e in a[0].segs):
                return Vec(list(a[0].segs), a[0].left, a[0].right, a[0].dir, a[0].tm)
            if isinstance(a[0], Bit) and isinstance(a[0].v, Expr):
                return a[0]
            if self.is_bitlike(a[0]):
                ch = self.bit_conc(a[0])
                return Bit({"L": "0", "H": "1"}.get(ch, ch if ch in "01" else "X"))
        if n in ("rising_edge", "falling_edge"):
            raise Undecided("clock edge in a package")
        return NotImplemented

    def size(self, x):
        if isinstance(x, Vec):
            return self.norm_i(self.vlen(x))
        if not self.ge_i(x, 0):
            self.fail("RangeCheck", "negative size")
        return self.norm_i(x)


class Agg:
    """aggregate whose type is not known yet"""
    def __init__(self, node, scope):
        self.node, self.scope = node, scope
