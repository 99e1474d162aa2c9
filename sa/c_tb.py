"""C23: text file input / output and array helpers of the simulation library lib/en_tb."""
import glob
import os
from fractions import Fraction
from pylib import *
from c_text import number
from ob import Ob
import vabs
from vabs import Rec, Vec, En, DI, R, Bit, Chr, Dg, St, ArrV, Ty, Obj, Agg, VFail, VECS, INTS
from vhdl import N, VErr

LIB = os.path.join(REPO, "lib", "en_tb", "hdl")
FIXP, FIXIO = "en_cl_fix_pkg", "en_cl_fix_fileio_pkg"
BASE, PRIV, TEXT = "en_tb_base_pkg", "en_tb_fileio_text_private_pkg", "en_tb_fileio_text_pkg"
HEX = "0123456789ABCDEF"
MODES = {"bin": "ascii_bin", "dec": "ascii_dec", "hex": "ascii_hex"}
FMODES = ("read_mode", "write_mode", "append_mode")
VERR = {"std_ulogic_vector": "std_logic_vector", "u_unsigned": "unsigned", "u_signed": "signed"}


class TM(str):
    """type mark of a vector; fl tells numeric_bit from numeric_std"""
    def __new__(cls, s, fl=None):
        o = str.__new__(cls, s)
        o.fl = fl
        return o


def flav(tm):
    return getattr(tm, "fl", None)


class SC(Dg):
    """character alpha[e]"""
    def __init__(self, e, alpha):
        self.e, self.alpha = e, alpha


def alpha(d):
    return getattr(d, "alpha", "0123456789")


class BitB(Bit):
    """element of bit_vector"""


class LineV:
    def __init__(self, s):
        self.s = s


class FileV:
    def __init__(self):
        self.name, self.mode, self.pos = None, None, 0


class ChkV:
    pass


NULL = LineV(None)


class TbInterp(vabs.Interp):
    def __init__(self, ctx, paths):
        self.fs = {}
        self.want = "function"
        self.active = []
        super().__init__(ctx, paths)
        for p, units in vabs.load_files(paths):
            for u in units:
                if u.kind in ("package", "packagebody"):
                    names = [n for x in u.ctx if x.kind == "use" for n in x.names]
                    k = {n.split(".")[1][8:] for n in names if n.split(".")[-1] == "all" and n.startswith(("ieee.numeric_bit.", "ieee.numeric_std."))}
                    if len(k) == 1:
                        self.pkgs[u.name].nflav = k.pop()

    def pflav(self, sc):
        while sc is not None:
            f = getattr(sc, "nflav", None)
            if f:
                return f
            sc = sc.parent
        return None

    # ================================================================ declarations and types
    def declare(self, sc, decls, lazy=False):
        rest = []
        for d in decls:
            if d.kind != "subprog":
                rest.append(d)
                continue
            if rest:
                super().declare(sc, rest, lazy)
                rest = []
            lst = sc.subs.setdefault(d.name, [])

            def key(x):
                return x.sk, [p.type.mark for p in x.params], x.ret.mark if x.ret is not None else None
            for i, o in enumerate(lst):
                if key(o.node) == key(d):
                    if d.body is not None:
                        lst[i] = vabs.SubP(d, sc)
                    break
            else:
                lst.append(vabs.SubP(d, sc))
        if rest:
            super().declare(sc, rest, lazy)

    def mark_flav(self, mark, sc):
        ps = mark.split(".")
        if ps[-1] not in ("unsigned", "signed", "u_unsigned", "u_signed"):
            return None
        if "numeric_bit" in ps:
            return "bit"
        if "numeric_std" in ps:
            return "std"
        return self.pflav(sc)

    def resolve(self, t, sc):
        m = t.mark
        if m.endswith("'subtype"):
            return self.ty_of(self.eval(N("name", t.line, id=m[:-8]), sc))
        if "'" in m:
            raise Undecided("type attribute")
        last = m.split(".")[-1]
        if last in ("text", "checker_t", "file_open_kind"):
            return Ty(last)
        if last == "integer_vector":
            ty = Ty(last)
            if t.con:
                ty.con = self.drange(t.con[1][0], sc)
            ty.el = Ty("integer")
            return ty
        e = sc.lookup(last)
        if isinstance(e, tuple) and e[0] == "lazyalias" and e[1].value.kind in ("sel", "name"):
            x = e[1].value
            pk = [p for p in self.pkgs.values() if x.kind == "sel" and x.e.kind in ("sel", "name") and getattr(x.e, "f", getattr(x.e, "id", "")) == p.name]
            return self.resolve(N("subtype_ind", t.line, mark=x.f if x.kind == "sel" else x.id, con=t.con, res=None), pk[0] if pk else e[2])
        ty = super().resolve(t, sc)
        if ty.base in ("unsigned", "signed") and flav(ty.base) is None:
            ty.base = TM(ty.base, self.mark_flav(m, sc))
        if ty.decl is not None and ty.decl.def_.kind == "arraytype":
            el = self.resolve(ty.decl.def_.elem, sc)
            ec = getattr(t, "elcon", None)
            if ec:
                el = Ty(el.base, self.drange(ec[1][0], sc), el.decl)
            ty.el = el
        return ty

    def ty_of(self, v):
        if isinstance(v, Vec):
            return Ty(v.tm, (v.left, v.right, v.dir))
        if isinstance(v, ArrV):
            l, r, dr = self.bounds(v)
            d = self.find_type(v.type)
            ty = Ty(v.type, (l, r, dr), d)
            ty.el = self.ty_of(v.els[0]) if v.els else getattr(v, "el", None)
            if ty.el is None:
                raise Undecided("subtype of an empty array")
            return ty
        if isinstance(v, St):
            return Ty("string", self.bounds(v))
        if isinstance(v, (int, Lin, DI)):
            return Ty("integer")
        raise Undecided("subtype of an object")

    def find_type(self, n):
        for p in self.pkgs.values():
            e = p.names.get(n)
            if isinstance(e, tuple) and e[0] == "type":
                return e[1]
        return None

    def default(self, ty, sc):
        b = ty.base
        if b == "text":
            return FileV()
        if b == "line":
            return NULL
        if b == "bit":
            return BitB("0")
        if b == "integer" and not ty.con:
            return -2 ** 31
        if b == "checker_t":
            return ChkV()
        if b in VECS and (b == "bit_vector" or flav(b) == "bit") and ty.con:
            l, r, dr = ty.con
            return Vec([(self.rlen(l, r, dr), Expr())], l, r, dr, b)
        if b == "integer_vector" or ty.decl is not None and ty.decl.def_.kind == "arraytype":
            if not ty.con:
                raise Undecided("unconstrained array object")
            l, r, dr = ty.con
            n = self.cint(self.rlen(l, r, dr))
            a = ArrV(b, [self.default(ty.el, sc) for _ in range(n)], self.cint(l), dr)
            a.el = ty.el
            return a
        return super().default(ty, sc)

    def convert(self, v, ty, sc, node=None, what="value"):
        b = ty.base
        if b == "line":
            if not isinstance(v, LineV):
                raise Undecided("line expected")
            return v
        if b in ("text", "checker_t"):
            return v
        if b == "bit":
            if isinstance(v, Chr) and v.c in ("0", "1"):
                return BitB(v.c)
            if isinstance(v, Bit):
                return BitB(v.v)
            raise Undecided("bit expected")
        if isinstance(v, ArrV):
            if v.type != b:
                raise Undecided("array type")
            el = getattr(ty, "el", None) or getattr(v, "el", None)
            left, dr = v.left, v.dir
            if ty.con:
                l, r, dr = ty.con
                if self.cint(self.rlen(l, r, dr)) != len(v.els):
                    self.fail("LengthMismatch", "lengths of the arrays do not match")
                left = self.cint(l)
            els = list(v.els)
            if el is not None and el.con:
                els = [self.convert(x, el, sc) for x in els]
            a = ArrV(b, els, left, dr)
            a.el = el if el is not None and el.con else getattr(v, "el", el)
            return a
        return super().convert(v, ty, sc, node, what)

    def matches(self, t, v, sc):
        m = t.mark.split(".")[-1]
        if isinstance(v, LineV):
            return m == "line"
        if isinstance(v, FileV):
            return m == "text"
        if isinstance(v, ChkV):
            return m == "checker_t"
        if isinstance(v, BitB):
            return m == "bit"
        if isinstance(v, Chr) and m == "bit":
            return v.c in ("0", "1")
        if isinstance(v, ArrV):
            return m == v.type
        if not super().matches(t, v, sc):
            return False
        if isinstance(v, Vec):
            a, b = flav(v.tm), self.mark_flav(t.mark, sc)
            return a is None or b is None or a == b
        return True

    def find(self, name, sc, args, kw, ty=None):
        out = []
        for s in sc.functions(name):
            if s.node.sk != self.want or any(s.node is o.node for o, _ in out):
                continue
            g = self.bind(s, args, kw)
            if g is not None:
                out.append((s, g))
        if len(out) > 1 and ty is not None and self.want == "function":
            for s, g in out:
                rt = self.resolve(s.node.ret, s.scope)
                if rt.base == ty.base and flav(rt.base) in (None, flav(ty.base)):
                    return s, g
        return out[0] if out else None

    def call_sub(self, sub, got, caller_scope, node=None):
        w, self.want = self.want, "function"
        self.active.append(sub)
        try:
            return super().call_sub(sub, got, caller_scope, node)
        finally:
            self.want = w
            self.active.pop()

    def ret_type(self, sc):
        s = self.active[-1] if self.active else None
        return self.resolve(s.node.ret, s.scope) if s is not None and s.node.ret is not None else None

    # ================================================================ characters
    def split_sc(self, d):
        """concrete character of a symbolic one"""
        al = alpha(d)
        for i, ch in enumerate(al[:-1]):
            if self.c.eq0(self.c.norm(d.e - i)):
                return ch
        return al[-1]

    def narrow(self, d):
        """alphabet reduced to the possible values"""
        al = alpha(d)
        hi = len(al)
        while hi > 1 and self.c.ge0(self.c.norm(Expr.const(hi - 2) - d.e)) is True:
            hi -= 1
        return al[:hi]

    def tabulate(self, sub, par, dg, caller_scope, node):
        al = self.narrow(dg)
        rs = [self.call_sub(sub, {par: Chr(ch)}, caller_scope, node) for ch in al]
        if all(isinstance(r, bool) for r in rs) and len(set(rs)) == 1:
            return rs[0]
        if all(isinstance(r, int) and not isinstance(r, bool) for r in rs):
            m = rs[1] - rs[0] if len(rs) > 1 else 0
            if all(r == rs[0] + m * i for i, r in enumerate(rs)):
                return DI(self.c.norm(dg.e * m + rs[0]))
        for i in range(len(al) - 1):
            if self.c.eq0(self.c.norm(dg.e - i)):
                return rs[i]
        return rs[-1]

    def char_eq(self, x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, str):
            x, y = y, x
        if isinstance(y, str):
            al = self.narrow(x)
            if y not in al:
                return False
            return self.c.eq0(self.c.norm(x.e - al.index(y)))
        if alpha(x) == alpha(y):
            return self.c.eq0(self.c.norm(x.e - y.e))
        return self.split_sc(x) == self.split_sc(y)

    def chval(self, x):
        """plain Chr / Dg for the operations of the base class"""
        if isinstance(x, Chr) and isinstance(x.c, SC):
            al = self.narrow(x.c)
            if al == "0123456789"[:len(al)]:
                return Chr(Dg(x.c.e))
            return Chr(self.split_sc(x.c))
        return x

    def geq(self, a, b):
        return super().geq(self.chval(a), self.chval(b))

    # ================================================================ expressions
    def eval(self, e, sc, ty=None):
        k = e.kind
        if k == "deref":
            v = self.eval(e.e, sc)
            if not isinstance(v, LineV):
                raise Undecided("access value")
            if v.s is None:
                self.at(e, sc)
                self.fail("NullAccess", "null access value is dereferenced")
            return v.s
        if k == "new":
            x = e.e
            if x.kind == "qual":
                v = self.eval(x, sc)
                if isinstance(v, St):
                    return LineV(St(v.chars, v.left, v.dir))
            raise Undecided("allocator")
        if k == "null":
            return NULL
        return super().eval(e, sc, ty)

    def name(self, e, sc):
        if sc.lookup(e.id) is None and e.id in FMODES:
            return En("file_open_kind", e.id)
        return super().name(e, sc)

    def attr(self, e, sc):
        if e.e.kind == "attr" and e.e.a == "element":
            v = self.eval(e.e.e, sc)
            if isinstance(v, ArrV):
                if v.els:
                    x = v.els[0]
                    l, r, dr = self.bounds(x)
                    n = self.norm_i(self.vlen(x))
                elif getattr(v, "el", None) is not None and v.el.con:
                    l, r, dr = v.el.con
                    n = self.rlen(l, r, dr)
                else:
                    raise Undecided("element subtype")
                if e.a == "length":
                    return n
                if e.a in ("left", "right", "high", "low"):
                    return self.norm_i({"left": l, "right": r, "high": l if dr == "downto" else r, "low": r if dr == "downto" else l}[e.a])
            raise Undecided("element attribute")
        return super().attr(e, sc)

    def tattr(self, t, a, args, sc):
        x = args[0] if args else None
        if a == "pos" and isinstance(x, Chr):
            x = self.chval(x)
            args = [x]
        if a == "value" and t in INTS and isinstance(x, St):
            ch = list(x.chars)
            while ch and ch[0] == " ":
                ch.pop(0)
            while ch and ch[-1] == " ":
                ch.pop()
            neg = bool(ch) and ch[0] == "-"
            if ch and ch[0] in ("-", "+"):
                ch.pop(0)
            if not ch:
                self.fail("ValueAttribute", "no number")
            s = Expr()
            for y in ch:
                if isinstance(y, Dg):
                    z = self.chval(Chr(y)).c
                    d = Expr.const(int(z)) if isinstance(z, str) and z.isdigit() else None if isinstance(z, str) else z.e
                else:
                    d = Expr.const(int(y)) if y.isdigit() else None
                if d is None:
                    self.fail("ValueAttribute", f"{t}'value of another character than a digit")
                s = self.c.norm(s * 10 + d)
            v = self.chk32(DI(self.c.norm(-s if neg else s)))
            return self.convert(v, self.resolve(N("subtype_ind", 0, mark=t, con=None), sc), sc)
        if a == "image" and isinstance(x, DI):
            return self.image(x)
        return super().tattr(t, a, args, sc)

    def image(self, x):
        c = self.c
        e = c.norm(x.e)
        k = e.as_const()
        if k is not None:
            return St(str(int(k)))
        for x, chars in self.dnums:
            if c.norm(e - x).as_const() == 0:
                return St(list(chars))
        if c.ge0(e) is True and c.ge0(c.norm(9 - e)) is True:
            return St([Dg(e)])
        raise Undecided("'image of a symbolic number")

    def aggregate(self, e, sc, ty):
        if ty.base in VECS and len(e.els) == 1 and e.els[0][0] is not None and len(e.els[0][0]) == 1 and e.els[0][0][0].kind == "range":
            l, r, dr = self.drange(e.els[0][0][0], sc)
            ch = self.bit_conc(self.eval(e.els[0][1], sc))
            n = self.rlen(l, r, dr)
            v = Expr() if ch in "0L" else Expr.pow2(self.c.lin(self.L(n))) - 1 if ch in "1H" else None
            return Vec([(n, v)], l, r, dr, ty.base)
        return super().aggregate(e, sc, ty)

    def bit_at(self, v, p):
        b = super().bit_at(v, p)
        return BitB(b.v) if v.tm == "bit_vector" or flav(v.tm) == "bit" else b

    def equal(self, a, b):
        if isinstance(a, LineV) and isinstance(b, LineV):
            if a.s is None or b.s is None:
                return a.s is b.s
            raise Undecided("equality of access values")
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return len(a.els) == len(b.els) and all(self.equal(x, y) for x, y in zip(a.els, b.els))
        return super().equal(a, b)

    def arith(self, op, a, b):
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (int, Lin, DI)) and not isinstance(x, bool) and isinstance(y, Vec) and y.tm in ("unsigned", "signed"):
                    if y.tm == "unsigned" and not self.ge_i(x, 0):
                        self.fail("RangeCheck", "negative natural operand")
                    v = self.mkvec(self.E(x), self.vlen(y), y.tm)
                    return super().arith(op, v, y)
        return super().arith(op, a, b)

    def ecall(self, e, sc, ty):
        f = e.f
        if f.kind == "sel" and f.e.kind in ("sel", "name"):
            parts, x = [], f
            while x.kind == "sel":
                parts.append(x.f)
                x = x.e
            if x.kind == "name":
                parts.append(x.id)
                parts.reverse()
                if sc.lookup(parts[0]) is None and parts[0] in ("ieee", "std"):
                    if parts[-1] in VECS and len(e.args) == 1:
                        return self.typeconv(e, ".".join(parts), sc)
                    pos, kw = self.args(e.args, sc)
                    if kw:
                        raise Undecided("named association")
                    self.at(e, sc)
                    r = self.ieee(parts[-1], pos, sc)
                    if r is NotImplemented:
                        raise Undecided("call of " + ".".join(parts))
                    if isinstance(r, Vec) and r.tm in ("unsigned", "signed") and flav(r.tm) is None and parts[1] in ("numeric_bit", "numeric_std"):
                        r.tm = TM(r.tm, parts[1][8:])
                    return r
        return super().ecall(e, sc, ty)

    def callname(self, n, pos, kw, sc, e, ty):
        hit = self.find(n, sc, pos, kw, ty)
        if hit:
            return self.call_sub(hit[0], hit[1], sc, e)
        r = super().callname(n, pos, kw, sc, e, ty)
        if isinstance(r, Vec) and r.tm in ("unsigned", "signed") and flav(r.tm) is None:
            src = [flav(x.tm) for x in pos if isinstance(x, Vec) and flav(x.tm)]
            fl = src[0] if src else self.pflav(sc)
            if fl:
                r.tm = TM(r.tm, fl)
        return r

    def ieee(self, n, a, sc):
        if n == "endfile" and len(a) == 1 and isinstance(a[0], FileV):
            f = a[0]
            if f.mode != "read_mode":
                self.fail("FileNotOpen", "endfile of a file that is not open for reading")
            return f.pos >= len(self.fs[f.name])
        if n in ("to_bit_vector", "to_bitvector", "to_bv", "to_std_logic_vector", "to_stdlogicvector", "to_slv", "to_std_ulogic_vector",
                 "to_stdulogicvector", "to_sulv") and len(a) == 1 and isinstance(a[0], Vec):
            v = a[0]
            self.pat(v)
            w = self.norm_i(self.vlen(v))
            tm = "bit_vector" if n in ("to_bit_vector", "to_bitvector", "to_bv") else "std_logic_vector"
            return Vec(list(v.segs), self.norm_i(self.L(w) - 1), 0, "downto", tm)
        if n in ("to_string", "to_bstring", "to_hstring", "to_dstring") and len(a) == 1:
            x = a[0]
            if isinstance(x, Vec) and n != "to_dstring":
                return St(self.hex_chars(x) if n == "to_hstring" else self.bin_chars(x))
            if isinstance(x, DI):
                return self.image(x)
            if isinstance(x, (int, Lin)) and not isinstance(x, bool):
                return St(str(self.cint(x)))
            if isinstance(x, En):
                return St(x.name)
            if isinstance(x, Bit):
                return St(self.bin_chars(Vec([(1, self.bit_expr(x))], 0, 0, "downto", None)))
        if n == "justify" or n == "strlen":
            raise Undecided(n)
        r = super().ieee(n, a, sc)
        return r

    # ================================================================ text
    def groups(self, e, k, bits):
        """k groups of bits, most significant first, of e in [0, 2^(k*bits))"""
        c = self.c
        out = []
        r = c.norm(e)
        for i in range(k - 1, -1, -1):
            q = c.floor_div(c.norm(r), Lin(bits * i)) if i else c.norm(r)
            out.append(c.norm(q))
            if i:
                r = c.norm(c.norm(r) - c.norm(q) * (1 << bits * i))
        return [c.norm(x) for x in out]

    def bin_chars(self, v):
        n = self.cint(self.norm_i(self.vlen(v)))
        out = []
        for q in self.groups(self.uval(v), n, 1) if n else []:
            k = q.as_const()
            out.append(str(int(k)) if k is not None else SC(q, "01"))
        return out

    def hex_chars(self, v):
        n = self.cint(self.norm_i(self.vlen(v)))
        k = (n + 3) // 4
        e = self.reduce(self.sval(v) if v.tm == "signed" else self.uval(v), 4 * k)
        out = []
        for q in self.groups(e, k, 4) if k else []:
            d = q.as_const()
            out.append(HEX[int(d)] if d is not None else SC(q, HEX))
        return out

    def skip_ws(self, ch):
        i = 0
        while i < len(ch) and isinstance(ch[i], str) and ch[i] in " \t\xa0":
            i += 1
        return ch[i:]

    def get_vec(self, L, x, base):
        """textio read / hread of a vector: (new line, value)"""
        if not isinstance(L, LineV) or L.s is None:
            self.fail("TextIO", "read from a null line")
        ch = self.skip_ws(list(L.s.chars))
        n = self.cint(self.norm_i(self.vlen(x)))
        bits = 1 if base == "bin" else 4
        k = n if base == "bin" else (n + 3) // 4
        if len(ch) < k:
            self.fail("TextIO", "too few characters on the line")
        s = Expr()
        used = 0
        got = 0
        while got < k:
            if used >= len(ch):
                self.fail("TextIO", "too few characters on the line")
            y = ch[used]
            used += 1
            if y == "_" and got:
                continue
            if isinstance(y, Dg):
                al = self.narrow(y)
                if len(al) > 1 << bits or al != HEX[:len(al)]:
                    y = self.split_sc(y)
            if isinstance(y, str):
                if y.upper() not in HEX[:1 << bits] or not y:
                    if y.upper() in "UXZWLH-":
                        raise Undecided("metavalue in a file")
                    self.fail("TextIO", f"character '{y}' where a {base} digit is expected")
                d = Expr.const(HEX.index(y.upper()))
            else:
                d = y.e
            s = self.c.norm(s * (1 << bits) + d)
            got += 1
        if bits * k > n:
            top = self.c.norm(self.c.floor_div(self.c.norm(s), Lin(n - (x.tm == "signed"))))
            ok = self.c.eq0(top)
            if not ok and x.tm == "signed":
                ok = self.c.eq0(self.c.norm(top - ((1 << bits * k - n + 1) - 1)))
            if not ok:
                self.fail("TextIO", "the number does not fit into the vector")
        rest = ch[used:]
        return LineV(St(rest)), Vec([(n, self.c.norm(s))], x.left, x.right, x.dir, x.tm)

    def append(self, L, chars):
        return LineV(St((list(L.s.chars) if L.s is not None else []) + list(chars)))

    def pcall(self, e, sc):
        f, args = (e.f, e.args) if e.kind == "call" else (e, [])
        std, scope = False, sc
        if f.kind == "sel":
            parts, x = [], f
            while x.kind == "sel":
                parts.append(x.f)
                x = x.e
            if x.kind != "name":
                raise Undecided("procedure call")
            parts.append(x.id)
            parts.reverse()
            fid = parts[-1]
            if parts[0] in ("ieee", "std"):
                std = True
            else:
                pk = [p for p in parts[:-1] if p in self.pkgs]
                if not pk:
                    raise Undecided("procedure " + ".".join(parts))
                scope = self.pkgs[pk[-1]]
        elif f.kind == "name":
            fid = f.id
        else:
            raise Undecided("procedure call")
        pos, kw = self.args(args, sc)
        hit = None
        if not std:
            self.want = "procedure"
            try:
                hit = self.find(fid, scope, pos, kw)
            finally:
                self.want = "function"
        if hit is None:
            return self.builtin_proc(fid, args, pos, kw, sc)
        sub, got = hit
        inner = self.call_sub(sub, got, sc)
        byname = {}
        for p, (nm, a) in zip(sub.node.params, args):
            byname[p.name if nm is None else nm.id] = a
        for p in sub.node.params:
            if p.mode in ("out", "inout") and p.name in byname and p.cls != "file":
                self.assign(byname[p.name], inner.names[p.name].value, sc)

    def builtin_proc(self, n, args, pos, kw, sc):
        if kw:
            raise Undecided(f"procedure {n} with named association")
        tgt = [a for _, a in args]
        if n == "deallocate" and len(pos) == 1:
            return self.assign(tgt[0], NULL, sc)
        if n == "file_open" and len(pos) in (2, 3) and isinstance(pos[0], FileV):
            fv = pos[0]
            nm = pos[1].text()
            md = pos[2].name if len(pos) == 3 else "read_mode"
            if fv.mode is not None:
                self.fail("FileOpen", "the file object is already open")
            if md == "read_mode":
                if nm not in self.fs:
                    self.fail("FileOpen", f"file {nm} does not exist")
            elif md == "write_mode":
                self.fs[nm] = []
            else:
                self.fs.setdefault(nm, [])
            fv.name, fv.mode, fv.pos = nm, md, 0
            return
        if n == "file_close" and len(pos) == 1 and isinstance(pos[0], FileV):
            pos[0].mode = None
            return
        if n == "readline" and len(pos) == 2 and isinstance(pos[0], FileV):
            fv = pos[0]
            if fv.mode != "read_mode":
                self.fail("FileNotOpen", "readline from a file that is not open for reading")
            ls = self.fs[fv.name]
            if fv.pos >= len(ls):
                self.fail("EndOfFile", "readline past the end of the file")
            fv.pos += 1
            return self.assign(tgt[1], LineV(St(ls[fv.pos - 1])), sc)
        if n == "writeline" and len(pos) == 2 and isinstance(pos[0], FileV):
            fv = pos[0]
            if fv.mode not in ("write_mode", "append_mode"):
                self.fail("FileNotOpen", "writeline to a file that is not open for writing")
            self.fs[fv.name].append(list(pos[1].s.chars) if pos[1].s is not None else [])
            return self.assign(tgt[1], LineV(St([])), sc)
        if n in ("read", "bread", "binary_read", "hread", "hex_read") and len(pos) == 2 and isinstance(pos[0], LineV) and isinstance(pos[1], Vec):
            L, v = self.get_vec(pos[0], pos[1], "hex" if n[0] == "h" else "bin")
            self.assign(tgt[0], L, sc)
            return self.assign(tgt[1], v, sc)
        if n in ("write", "bwrite", "binary_write", "hwrite", "hex_write", "swrite") and len(pos) == 2 and isinstance(pos[0], LineV):
            x = pos[1]
            if isinstance(x, Vec):
                ch = self.hex_chars(x) if n[0] == "h" else self.bin_chars(x)
            elif isinstance(x, St):
                ch = x.chars
            elif isinstance(x, Chr):
                ch = [x.c]
            elif isinstance(x, Bit):
                ch = self.bin_chars(Vec([(1, self.bit_expr(x))], 0, 0, "downto", None))
            elif isinstance(x, DI):
                ch = self.image(x).chars
            elif isinstance(x, (int, Lin)) and not isinstance(x, bool):
                ch = str(self.cint(x))
            else:
                raise Undecided(f"procedure {n}")
            return self.assign(tgt[0], self.append(pos[0], ch), sc)
        if n == "check_equal":
            a = pos[1:] if pos and isinstance(pos[0], ChkV) else pos
            ok = len(a) >= 2 and self.equal(a[0], a[1])
            self.c.events.append(("check", ok))
            return
        if n in ("info", "debug", "trace", "print"):
            return
        raise Undecided(f"procedure {n}")

    def assign(self, t, v, sc):
        if t.kind == "call" and len(t.args) == 1:
            o = self.obj_of(t.f, sc)
            w = o.value
            if isinstance(w, ArrV) and t.args[0][1].kind not in ("range", "rangeof"):
                l, r, dr = self.bounds(w)
                i = self.cint(self.eval(t.args[0][1], sc))
                p = i - w.left if dr == "to" else w.left - i
                if not 0 <= p < len(w.els):
                    self.fail("IndexOutOfRange", "index of an array")
                a = ArrV(w.type, list(w.els), w.left, w.dir)
                if isinstance(w.els[p], Rec):
                    if not isinstance(v, Rec) or v.type != w.els[p].type:
                        raise Undecided("assignment to a record element")
                    a.els[p] = v
                else:
                    a.els[p] = self.convert(v, self.ty_of(w.els[p]), sc)
                a.el = getattr(w, "el", None)
                o.value = a
                return
        return super().assign(t, v, sc)


# ====================================================================================== session
SB, UB, SS, US = TM("signed", "bit"), TM("unsigned", "bit"), TM("signed", "std"), TM("unsigned", "std")
# kind -> (array type, element type mark, has a signedness parameter, signed)
KINDS = {"signed bit": ("signedbitarray_t", SB, False, True), "unsigned bit": ("unsignedbitarray_t", UB, False, False),
         "signed std": ("signedarray_t", SS, False, True), "unsigned std": ("unsignedarray_t", US, False, False),
         "integer": ("integer_vector", None, False, True),
         "bit_vector signed": ("bitvectorarray_t", "bit_vector", True, True), "bit_vector unsigned": ("bitvectorarray_t", "bit_vector", True, False),
         "slv signed": ("slvarray_t", "std_logic_vector", True, True), "slv unsigned": ("slvarray_t", "std_logic_vector", True, False),
         "sulv signed": ("sulvarray_t", "std_logic_vector", True, True), "sulv unsigned": ("sulvarray_t", "std_logic_vector", True, False)}


def files():
    fs = [f for f in sorted(glob.glob(os.path.join(LIB, "*.vhd"))) if not f.endswith("_context.vhd")]
    if not fs:
        raise Missing("lib/en_tb/hdl")
    return fs


def fix_files():
    root = os.path.dirname(os.path.dirname(os.path.dirname(LIB)))
    h = sorted(glob.glob(os.path.join(root, "hdl", "*pkg.vhd")))
    t = sorted(glob.glob(os.path.join(root, "tb", "util", "*.vhd")))
    return h + t


class Tb:
    def __init__(self, c, fix=False):
        self.c = c
        try:
            self.I = TbInterp(c, files() + (fix_files() if fix else []))
        except VErr as e:
            raise Missing(f"VHDL sources cannot be parsed: {e}")
        for p in (BASE, PRIV, TEXT) + ((FIXP, FIXIO) if fix else ()):
            if p not in self.I.pkgs:
                raise Missing(f"package {p} not found in {LIB}")

    def mode(self, m):
        return En("text_data_mode_t", MODES[m])

    def sgn(self, s):
        return En("signedness_t", "signed_s" if s else "unsigned_s")

    def sub(self, pkg, name, sk, args, ret=None):
        I = self.I
        sc = I.pkgs[pkg]
        hits = []
        for s in sc.subs.get(name, []):
            if s.node.sk != sk:
                continue
            g = I.bind(s, args, {})
            if g is None:
                continue
            if ret is not None:
                rt = I.resolve(s.node.ret, s.scope)
                if rt.base != ret or flav(rt.base) != flav(ret):
                    continue
                if ret == "std_logic_vector" and False:
                    continue
            hits.append((s, g))
        if not hits:
            raise Missing(f"{sk} {name} of {pkg} with the documented profile")
        return hits[0]

    def func(self, pkg, name, args, ret=None):
        s, g = self.sub(pkg, name, "function", args, ret)
        return self.I.call_sub(s, g, self.I.pkgs[pkg])

    def proc(self, pkg, name, args, outs):
        """outs: parameter positions whose final values are returned"""
        s, g = self.sub(pkg, name, "procedure", args)
        sc = self.I.call_sub(s, g, self.I.pkgs[pkg])
        ps = s.node.params
        return [sc.names[ps[i].name].value for i in outs]

    def vec(self, e, w, tm):
        """e in the signed or unsigned range of w bits"""
        c = self.c
        if c.ge0(c.norm(e)) is not True and c.ge0(c.norm(-1 - e)) is True:
            e = c.norm(e + 2 ** w)
        return Vec([(w, e)], w - 1, 0, "downto", tm)

    def blank(self, w, tm):
        return Vec([(w, Expr() if tm == "bit_vector" or flav(tm) == "bit" else None)], w - 1, 0, "downto", tm)

    def arr(self, ty, els, w=None, tm=None):
        a = ArrV(ty, list(els), 0, "to")
        a.el = Ty(tm, (w - 1, 0, "downto")) if tm is not None else Ty("integer")
        return a

    def data(self, name, w, sg):
        c = self.c
        if not sg:
            return c.new_input(name, Expr(), Expr.const(2 ** w - 1))
        b = c.new_input(name + "_neg", Expr(), Expr.const(1))
        pos = c.eq0(b)
        y = c.new_input(name + "_low", Expr(), Expr.const(2 ** (w - 1) - 1)) if w > 1 else Expr()
        return c.norm(y) if pos else c.norm(y - 2 ** (w - 1))

    def value(self, v, sg):
        if isinstance(v, Vec):
            if any(e is None and not (isinstance(w, int) and w == 0) for w, e in v.segs):
                raise Finding("the result is not assigned", kind="unassigned")
            return self.I.sval(v) if sg else self.I.uval(v)
        return self.I.E(v)

    def same(self, v, want, what, w=None, sg=False):
        c = self.c
        if w is not None and isinstance(v, Vec) and self.I.cint(self.I.norm_i(self.I.vlen(v))) != w:
            raise Finding(f"{what}: width of the result", kind="width")
        x = self.value(v, sg)
        d = c.norm(c.norm(x) - c.norm(want))
        if not c.eq0(d):
            raise Finding(f"{what}: another value than written / represented", kind="value", where=(x, want))

    def check_lines(self, name, header, m, w, sg, vals):
        c = self.c
        skip = 1 if header else 0
        ls = self.I.fs.get(name)
        if ls is None:
            raise Finding("write_file does not create the file", kind="text")
        if len(ls) != len(vals) + skip:
            raise Finding(f"write_file writes {len(ls)} lines, expected {len(vals) + skip}", kind="text")
        if header and "".join(x if isinstance(x, str) else "#" for x in ls[0]) != header:
            raise Finding("the first line is not the header", kind="text")
        for i, x in enumerate(vals):
            s = self.parse(ls[skip + i], m, w, sg, f"line {i}")
            if not c.eq0(c.norm(c.norm(s) - c.norm(x))):
                raise Finding(f"line {i} of the file represents another number", kind="value", where=(s, x))

    # ------------------------------------------------------------------ texts
    def digits(self, name, k, m, top=None):
        """k symbolic digits, MSB first: (characters, value)"""
        base, al = {"bin": (2, "01"), "dec": (10, "0123456789"), "hex": (16, HEX)}[m]
        ch, val = [], Expr()
        for i in range(k):
            hi = (top if i == 0 and top is not None else base - 1)
            d = self.c.new_input(f"{name}{i}", Expr(), Expr.const(hi))
            ch.append(Dg(d) if m == "dec" else SC(d, al))
            val = self.c.norm(val * base + d)
        return ch, val

    def parse(self, ch, m, w, sg, what):
        """independent reading of one number: value of the text"""
        c, I = self.c, self.I
        ch = list(ch)
        neg = False
        if m == "dec" and ch and ch[0] == "-":
            neg = True
            ch = ch[1:]
        base = {"bin": 2, "dec": 10, "hex": 16}[m]
        if not ch:
            raise Finding(f"{what}: no number is written", kind="text")
        if m == "bin" and len(ch) != w or m == "hex" and len(ch) != (w + 3) // 4:
            raise Finding(f"{what}: number of digits of the text", kind="text")
        s = Expr()
        for y in ch:
            if isinstance(y, Dg):
                al = I.narrow(y)
                if al != HEX[:len(al)] or len(al) > base:
                    y = I.split_sc(y)
            if isinstance(y, str):
                if y.upper() not in HEX[:base]:
                    raise Finding(f"{what}: the character '{y}' is not a digit of the mode", kind="text")
                d = Expr.const(HEX.index(y.upper()))
            else:
                d = y.e
            s = c.norm(s * base + d)
        if neg:
            s = c.norm(-s)
        if m != "dec" and sg:
            top = Expr.const(2 ** (w if m == "bin" else 4 * len(ch)))
            if c.decide(c.norm(s - Fraction(int(top.as_const()), 2))):
                s = c.norm(c.norm(s) - top)
        return s


def P0():
    return Poly.top([])


def xvals(t, kind, m, tier):
    """(width, [values]) of the data of an array obligation; integers take a small symbolic range and both extremes in decimal mode"""
    ty, tm, hs, sg = KINDS[kind]
    return ty, tm, hs, sg


# ====================================================================================== obligations
def roundtrip(kind, m, w, rows, header):
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        vals, els = [], []
        for i in range(rows):
            if tm is None:
                if m == "dec":
                    lo, hi = ((-1, 2), (-2 ** 31, -2 ** 31), (2 ** 31 - 1, 2 ** 31 - 1))[i % 3]
                    x = c.new_input(f"x{i}", Expr.const(lo), Expr.const(hi)) if lo < hi else Expr.const(lo)
                else:
                    x = t.data(f"x{i}", 32, True)
                els.append(DI(x) if x.as_const() is None else int(x.as_const()))
            else:
                x = t.data(f"x{i}", w, sg)
                els.append(t.vec(x, w, tm))
            vals.append(x)
        data = t.arr(ty, els, w, tm)
        pre = [t.sgn(sg)] if hs else []
        t.proc(TEXT, "write_file", [St("f.txt"), data] + pre + [t.mode(m)] + ([] if header is None else [St(header)]), [])
        t.check_lines("f.txt", header, m, w if tm is not None else 32, sg, vals)
        skip = 1 if header else 0
        back(t, kind, m, w, skip, vals)
    return fn


def back(t, kind, m, w, skip, vals):
    ty, tm, hs, sg = KINDS[kind]
    args = [St("f.txt")] + ([w] if tm is not None else []) + ([t.sgn(sg)] if hs else []) + [t.mode(m), skip]
    r = t.func(TEXT, "read_file", args, ty)
    if not isinstance(r, ArrV) or len(r.els) != len(vals):
        raise Finding(f"read_file returns {len(r.els)} values, the file has {len(vals)}", kind="length")
    if r.els and (r.left, r.dir) != (0, "to"):
        raise Finding("the result of read_file is not indexed from 0 upwards", kind="length")
    for i, x in enumerate(vals):
        t.same(r.els[i], x, f"read_file, element {i}", w, sg)


def columns(kind, m, w, rows, cols, skip, sep, k, neg=()):
    """read_file of a file with several columns"""
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        ls = [list("# 1, 2 header 3") for _ in range(skip)]
        vals = []
        for i in range(rows):
            line = []
            for j in range(cols):
                if j:
                    line += list(sep)
                ch, val = t.digits(f"d{i}_{j}_", k, m)
                if m == "dec" and (i * cols + j) in neg:
                    line.append("-")
                    val = c.norm(-val)
                line += ch
                n = w if tm is not None else 32
                if m != "dec" and sg:
                    base = 2 ** (k * (1 if m == "bin" else 4))
                    if c.decide(c.norm(val - base // 2)):
                        val = c.norm(c.norm(val) - base)
                vals.append(val)
            ls.append(line)
        t.I.fs["f.txt"] = ls
        back(t, kind, m, w, skip, vals)
    return fn


def sizes(m, rows, cols, skip, sep, lead="", trail="", k=2):
    def fn(c):
        t = Tb(c)
        ls = [list("a 1 b 2 c 3 d 4") for _ in range(skip)]
        for i in range(rows):
            line = list(lead)
            for j in range(cols):
                line += (list(sep) if j else []) + t.digits(f"d{i}_{j}_", k, m)[0]
            ls.append(line + list(trail))
        t.I.fs["f.txt"] = ls
        n = t.func(TEXT, "get_file_size_lines", [St("f.txt")])
        if n != rows + skip:
            raise Finding(f"get_file_size_lines returns {n} for a file of {rows + skip} lines", kind="count")
        n = t.func(TEXT, "get_file_size_columns", [St("f.txt"), skip, t.mode(m)])
        if n != (cols if rows else 0):
            raise Finding(f"get_file_size_columns returns {n}, the data lines have {cols if rows else 0} columns", kind="count")
    return fn


SCAL = {"std_logic": "std_logic", "bit": "bit"}


def fread(kind, m, w, k, skip, close, how):
    """read(file) as procedure or function"""
    ty, tm, hs, sg = KINDS.get(kind, (None, None, False, False))

    def fn(c):
        t = Tb(c)
        ls, want = [], []
        for i in range(4):
            if kind in SCAL:
                ch, val = t.digits(f"d{i}_", 1, m, 1)
            else:
                ch, val = t.digits(f"d{i}_", k, m)
                if m == "dec" and sg and i != 1:
                    ch, val = ["-"] + ch, c.norm(-val)
                if m != "dec" and sg:
                    base = 2 ** (k * (1 if m == "bin" else 4))
                    if i == skip and c.decide(c.norm(val - base // 2)):
                        val = c.norm(c.norm(val) - base)
            ls.append(ch)
            want.append(val)
        t.I.fs["f.txt"] = ls
        f = FileV()
        f.name, f.mode, f.pos = "f.txt", "read_mode", 0
        if kind in SCAL:
            x0 = BitB("0") if kind == "bit" else Bit("U")
        else:
            x0 = t.blank(w, tm) if tm is not None else 0
        tail = [t.mode(m), skip, close]
        if how == "proc":
            r, = t.proc(TEXT, "read", [f, x0] + ([t.sgn(sg)] if hs else []) + tail, [1])
        elif kind in SCAL:
            r = t.func(TEXT, "read", [f, t.sgn(False), 1] + tail, SCAL[kind])
        else:
            a = [f] + ([t.sgn(sg)] if hs else []) + ([w] if tm is not None else []) + tail
            r = t.func(TEXT, "read", a, tm if tm is not None else "integer")
        if kind in SCAL:
            if not isinstance(r, Bit):
                raise Finding("the result is not a bit", kind="type")
            r = Vec([(1, t.I.bit_expr(r))], 0, 0, "downto", None)
        t.same(r, c.norm(want[skip]), f"read of line {skip + 1}", w if tm is not None else None, sg)
        if f.pos != skip + 1:
            raise Finding(f"{f.pos} lines are consumed, expected {skip + 1}", kind="position")
        if (f.mode is None) != close:
            raise Finding("the file is closed although close_after is false" if not close else "the file stays open although close_after is true", kind="close")
    return fn


def lread(kind, m, w, k, sep, head="", neg=False):
    """read(line): the value and the remaining line"""
    ty, tm, hs, sg = KINDS.get(kind, (None, None, False, False))

    def fn(c):
        t = Tb(c)
        if kind in SCAL:
            ch, val = t.digits("d", 1, m, 1)
            ch2, val2 = t.digits("e", 1, m, 1)
        else:
            ch, val = t.digits("d", k, m)
            ch2, val2 = t.digits("e", k, m)
        if neg:
            ch2, val2 = ["-"] + ch2, c.norm(-val2)
        if m != "dec" and sg:
            base = 2 ** (k * (1 if m == "bin" else 4))
            if c.decide(c.norm(val - base // 2)):
                val = c.norm(c.norm(val) - base)
            if c.decide(c.norm(c.norm(val2) - base // 2)):
                val2 = c.norm(c.norm(val2) - base)
        L = LineV(St(list(head) + ch + list(sep) + ch2))
        for val_ in (val, val2):
            if kind in SCAL:
                x0 = BitB("0") if kind == "bit" else Bit("U")
            else:
                x0 = t.blank(w, tm) if tm is not None else 0
            L, r = t.proc(TEXT, "read", [L, x0] + ([t.sgn(sg)] if hs else []) + [t.mode(m)], [0, 1])
            if kind in SCAL:
                r = Vec([(1, t.I.bit_expr(r))], 0, 0, "downto", None)
            t.same(r, c.norm(val_), "read from a line", w if tm is not None else None, sg)
        if L.s is None or L.s.chars:
            raise Finding("the numbers are not consumed from the line", kind="line")
    return fn


def lwrite(kind, m, w, old):
    """write(line): the text is appended"""
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        if tm is None:
            x = c.new_input("x", Expr.const(-3), Expr.const(3)) if m == "dec" else t.data("x", 32, True)
            arg = DI(x)
        else:
            x = t.data("x", w, sg)
            arg = t.vec(x, w, tm)
        L0 = NULL if old is None else LineV(St(old))
        L, = t.proc(TEXT, "write", [L0, arg] + ([t.sgn(sg)] if hs else []) + [t.mode(m)], [0])
        ch = [] if L.s is None else L.s.chars
        o = list(old or "")
        if ch[:len(o)] != o:
            raise Finding("write(line) discards what the line already holds", kind="append")
        s = t.parse(ch[len(o):], m, w if tm is not None else 32, sg, "write(line)")
        if not c.eq0(c.norm(c.norm(s) - c.norm(x))):
            raise Finding("the text represents another number", kind="value", where=(s, x))
    return fn


def lwide(kind, w, vals):
    """decimal text of wide numbers: both ends of the range"""
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        for x in vals:
            L, = t.proc(TEXT, "write", [NULL, t.vec(Expr.const(x), w, tm)] + ([t.sgn(sg)] if hs else []) + [t.mode("dec")], [0])
            s = t.parse(L.s.chars, "dec", w, sg, "write(line)")
            if c.norm(s).as_const() != x:
                raise Finding(f"the decimal text of {x} ({w} bits) represents {c.norm(s).as_const()}", kind="text")
    return fn


def fwrite(kind, m, w):
    """write(file): one line per value"""
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        f = FileV()
        f.name, f.mode = "f.txt", "write_mode"
        t.I.fs["f.txt"] = [list("old")]
        xs = []
        for i in range(2):
            x = t.data(f"x{i}", w, sg)
            xs.append(x)
            t.proc(TEXT, "write", [f, t.vec(x, w, tm)] + ([t.sgn(sg)] if hs else []) + [t.mode(m)], [])
        ls = t.I.fs["f.txt"]
        if len(ls) != 3 or ls[0] != list("old") or f.mode is None:
            raise Finding("write(file) does not append exactly one line", kind="text")
        for i in range(2):
            s = t.parse(ls[i + 1], m, w, sg, f"line {i}")
            if not c.eq0(c.norm(c.norm(s) - c.norm(xs[i]))):
                raise Finding("the line represents another number", kind="value", where=(s, xs[i]))
    return fn


def dread_max(kind, w):
    """decimal numbers up to both ends of the range, last digit symbolic"""
    ty, tm, hs, sg = KINDS[kind]

    def fn(c):
        t = Tb(c)
        hi = 2 ** (w - 1) - 1 if sg else 2 ** w - 1
        cases = [(hi, False)] + ([(hi + 1, True)] if sg else [])
        for n, ng in cases:
            p, d = str(n)[:-1], int(str(n)[-1])
            for zeros in ("", "000"):
                e = c.new_input(f"d{ng:d}{len(zeros)}", Expr(), Expr.const(d)) if d else Expr()
                ch = (["-"] if ng else []) + list(zeros + p) + [Dg(e) if d else "0"]
                val = c.norm(Expr.const(int(p or "0") * 10) + e)
                L, r = t.proc(TEXT, "read", [LineV(St(ch)), t.blank(w, tm)] + ([t.sgn(sg)] if hs else []) + [t.mode("dec")], [0, 1])
                t.same(r, c.norm(-val if ng else val), "decimal read", w, sg)
    return fn


ARRS = {"slvarray_t": "std_logic_vector", "sulvarray_t": "std_logic_vector", "unsignedarray_t": US, "signedarray_t": SS,
        "bitvectorarray_t": "bit_vector", "unsignedbitarray_t": UB, "signedbitarray_t": SB}


def flat(ty, n, w):
    tm = ARRS[ty]

    def fn(c):
        t = Tb(c)
        xs = [t.data(f"x{i}", w, False) for i in range(n)]
        a = t.arr(ty, [t.vec(x, w, tm) for x in xs], w, tm)
        k = t.func(BASE, "numel", [a])
        if k != n * w:
            raise Finding(f"Numel returns {k} for {n} elements of {w} bits", kind="count")
        v = t.func(BASE, "flatten", [a])
        if t.I.cint(t.I.norm_i(t.I.vlen(v))) != n * w:
            raise Finding("length of the flattened vector", kind="width")
        s = Expr()
        for x in reversed(xs):
            s = c.norm(s * 2 ** w + x)
        t.same(Vec(v.segs, v.left, v.right, v.dir, None), s, "Flatten", None, False)
        for off in (0, 3):
            big = Vec([(n * w, s)], n * w - 1 + off, off, "downto", tm) if n else Vec([], 0, 1, "to", tm)
            blank = t.arr(ty, [t.blank(w, tm) for _ in range(n)], w, tm)
            rf = t.func(BASE, "unflatten", [big, blank], ty)
            rp, = t.proc(BASE, "unflatten", [big, blank], [1])
            for r in (rf, rp):
                if not isinstance(r, ArrV) or len(r.els) != n:
                    raise Finding("length of the unflattened array", kind="length")
                for i in range(n):
                    t.same(Vec(r.els[i].segs, w - 1, 0, "downto", None), xs[i], f"Unflatten, element {i}", w, False)
    return fn


def checks(ty, n1, n2, chk):
    tm = ARRS[ty]
    w = 2

    def fn(c):
        t = Tb(c)
        xs = [t.data(f"x{i}", w, False) for i in range(n1)]
        ys = [t.data(f"y{i}", w, False) for i in range(n2)]
        a = t.arr(ty, [t.vec(x, w, tm) for x in xs], w, tm)
        b = t.arr(ty, [t.vec(y, w, tm) for y in ys], w, tm)
        failed = False
        try:
            t.proc(BASE, "check_equal", ([ChkV()] if chk else []) + [a, b], [])
        except VFail:
            failed = True
        failed = failed or ("check", False) in c.events
        eq = n1 == n2
        for x, y in zip(xs, ys):
            if not c.eq0(c.norm(c.norm(x) - c.norm(y))):
                eq = False
        if failed and eq:
            raise Finding("check_equal reports a difference between equal arrays", kind="check")
        if not failed and not eq:
            raise Finding("check_equal does not report a difference", kind="check")
    return fn


def check_vec(tm, chk):
    def fn(c):
        t = Tb(c)
        x, y = t.data("x", 3, False), t.data("y", 3, False)
        t.proc(BASE, "check_equal", ([ChkV()] if chk else []) + [t.vec(x, 3, tm), t.vec(y, 3, tm)], [])
        failed = ("check", False) in c.events
        if failed == c.eq0(c.norm(c.norm(x) - c.norm(y))):
            raise Finding("check_equal of vectors reports a difference exactly when there is none", kind="check")
    return fn


# ====================================================================================== fixed-point files
def frec(S, I, F):
    return Rec("fixformat_t", {"s": S, "i": I, "f": F})


def fixfile(S, I, F, m, rows, header):
    """cl_fix_write_file / cl_fix_read_file"""
    w = S + I + F

    def fn(c):
        t = Tb(c, True)
        xs = [t.data(f"x{i}", w, S == 1) for i in range(rows)]
        data = t.arr("slvarray_t", [t.vec(x, w, "std_logic_vector") for x in xs], w, "std_logic_vector")
        t.proc(FIXIO, "cl_fix_write_file", [St("f.txt"), data, frec(S, I, F), t.mode(m)] + ([] if header is None else [St(header)]), [])
        skip = 1 if header else 0
        t.check_lines("f.txt", header, m, w, S == 1, xs)
        r = t.func(FIXIO, "cl_fix_read_file", [St("f.txt"), frec(S, I, F), t.mode(m), skip])
        if not isinstance(r, ArrV) or len(r.els) != rows:
            raise Finding("cl_fix_read_file returns another number of values than the file has", kind="length")
        for i, x in enumerate(xs):
            t.same(r.els[i], x, f"cl_fix_read_file, element {i}", w, S == 1)
    return fn


def fixline(S, I, F, m, how):
    """cl_fix_write / cl_fix_read on a line or an open file; two values one after the other"""
    w = S + I + F

    def fn(c):
        t = Tb(c, True)
        xs = [t.data(f"x{i}", w, S == 1) for i in range(2)]
        if how == "line":
            L = NULL
            for i, x in enumerate(xs):
                L, = t.proc(FIXIO, "cl_fix_write", [L, t.vec(x, w, "std_logic_vector"), frec(S, I, F), t.mode(m)], [0])
                if not i:
                    L = LineV(St(list(L.s.chars) + [" "]))
            ch = list(L.s.chars)
            k = ch.index(" ")
            for p, x in ((ch[:k], xs[0]), (ch[k + 1:], xs[1])):
                s = t.parse(p, m, w, S == 1, "cl_fix_write")
                if not c.eq0(c.norm(c.norm(s) - c.norm(x))):
                    raise Finding("cl_fix_write: the text represents another number", kind="value", where=(s, x))
            for x in xs:
                L, v = t.proc(FIXIO, "cl_fix_read", [L, t.blank(w, "std_logic_vector"), frec(S, I, F), t.mode(m)], [0, 1])
                t.same(v, x, "cl_fix_read", w, S == 1)
            return
        f = FileV()
        f.name, f.mode = "f.txt", "write_mode"
        t.I.fs["f.txt"] = [list("old 1"), list("old 2")]
        for x in xs:
            t.proc(FIXIO, "cl_fix_write", [f, t.vec(x, w, "std_logic_vector"), frec(S, I, F), t.mode(m)], [])
        ls = t.I.fs["f.txt"]
        if len(ls) != 4 or ls[:2] != [list("old 1"), list("old 2")]:
            raise Finding("cl_fix_write does not append one line per value", kind="text")
        for l, x in zip(ls[2:], xs):
            s = t.parse(l, m, w, S == 1, "cl_fix_write")
            if not c.eq0(c.norm(c.norm(s) - c.norm(x))):
                raise Finding("cl_fix_write: the line represents another number", kind="value", where=(s, x))
        g = FileV()
        g.name, g.mode = "f.txt", "read_mode"
        for i, x in enumerate(xs):
            r = t.func(FIXIO, "cl_fix_read", [g, frec(S, I, F), t.mode(m), 0 if i else 2, i == 1])
            t.same(r, x, f"cl_fix_read, value {i}", w, S == 1)
            if (g.mode is None) != (i == 1):
                raise Finding("cl_fix_read: CloseAfter", kind="close")
    return fn


def py_text_file(c, n, scalar):
    """lines of the file that cl_fix_write_formats writes for n symbolic formats; numbers are ('num', (format, field))"""
    import pyabs as A
    p = Sess(c)
    fs = [p.pfmt(x) for x in "abc"[:n]]
    n0 = len(c.events)
    p.call(p.api("cl_fix_write_formats"), [fs[0] if scalar else A.PyList(fs), A.PyList(["a_fmt", "b_fmt"][:max(n, 1)]), "f.txt"])
    text, opened = [], 0
    for ev in c.events[n0:]:
        if ev[0] == "file.open":
            opened += 1
            if ev[1][0] != "f.txt" or len(ev[1]) < 2 or ev[1][1] not in ("w", "wt"):
                raise Finding("cl_fix_write_formats does not (over)write the file of the given name", kind="text")
        elif ev[0] == "file.write":
            x = ev[1][0]
            text += x.parts if isinstance(x, A.SymStr) else [x]
        elif ev[0] == "file.writelines":
            for x in p.I.iterate(ev[1][0]):
                text += x.parts if isinstance(x, A.SymStr) else [x]
        elif ev[0] in ("file.close", "file.flush"):
            pass
        elif ev[0].startswith("file") or ev[0] == "print":
            raise Undecided("output to a file by " + ev[0])
    if opened != 1:
        raise Finding("cl_fix_write_formats does not open exactly one file", kind="text")
    lines, cur = [], []
    for x in text:
        if isinstance(x, str):
            for ch in x:
                if ch == "\n":
                    lines.append(cur)
                    cur = []
                else:
                    cur.append(ch)
        elif isinstance(x, tuple) and x[0] == "num":
            for i in "abc"[:n]:
                for fld in "SIF":
                    d = c.lin(c.lin(x[1]) - v(i + fld))
                    if d.is_const() and d.c == 0:
                        cur.append(("num", i, fld))
                        break
                else:
                    continue
                break
            else:
                L = c.lin(x[1])
                if not L.is_const():
                    raise Undecided("a number of the text is no field of a format")
                cur += list(str(L.c))
        else:
            raise Undecided("text of a format file")
    if cur:
        lines.append(cur)
    return lines


def py_fmt_file(shapes, scalar=False):
    """a file written by the Python model's cl_fix_write_formats is read by cl_fix_read_format_file"""
    def fn(c):
        ls = py_text_file(c, len(shapes), scalar)
        t = Tb(c, True)
        t.I.dnums = []
        num, want = {}, []
        for i, (S, nI, nF) in zip("abc", shapes):
            e1, c1 = number(c, f"i{i}", *nI)
            e2, c2 = number(c, f"f{i}", *nF)
            num.update({(i, "S"): list(str(S)), (i, "I"): c1, (i, "F"): c2})
            want.append((S, e1, e2))
        t.I.fs["f.txt"] = [[y for x in l for y in (num[x[1:]] if isinstance(x, tuple) else [x])] for l in ls]
        r = t.func(FIXIO, "cl_fix_read_format_file", [St("f.txt")])
        if not isinstance(r, ArrV) or len(r.els) != len(shapes):
            raise Finding("cl_fix_read_format_file returns another number of formats than cl_fix_write_formats wrote", kind="length")
        for (S, e1, e2), g in zip(want, r.els):
            for k, x in (("s", Expr.const(S)), ("i", e1), ("f", e2)):
                if not c.eq0(c.norm(c.norm(t.I.E(g.f[k])) - c.norm(x))):
                    raise Finding(f"a format written by Python is read by VHDL with another {k.upper()}", kind="value")
    return fn


def fmt_file(shapes, skip, how):
    """cl_fix_write_format_file / cl_fix_write_format, cl_fix_read_format_file / cl_fix_read_format"""
    def fn(c):
        t = Tb(c, True)
        t.I.dnums = []
        want, recs = [], []
        for i, (S, nI, nF) in enumerate(shapes):
            e1, c1 = number(c, f"i{i}", *nI)
            e2, c2 = number(c, f"f{i}", *nF)
            t.I.dnums += [(e1, c1), (e2, c2)]
            want.append((S, e1, e2))
            recs.append(Rec("fixformat_t", {"s": S, "i": DI(e1), "f": DI(e2)}))
        if how == "file":
            t.proc(FIXIO, "cl_fix_write_format_file", [St("f.txt"), ArrV("fixformatarray_t", recs, 0, "to")], [])
            t.I.fs["f.txt"] = [list("# head")] * skip + t.I.fs["f.txt"]
        else:
            f = FileV()
            f.name, f.mode = "f.txt", "write_mode"
            t.I.fs["f.txt"] = [list("# head")] * skip
            for r in recs:
                t.proc(FIXIO, "cl_fix_write_format", [f, r], [])
        if len(t.I.fs["f.txt"]) != skip + len(recs):
            raise Finding("not exactly one line per format is written", kind="text")
        if how == "file":
            r = t.func(FIXIO, "cl_fix_read_format_file", [St("f.txt"), skip])
            if not isinstance(r, ArrV) or len(r.els) != len(recs):
                raise Finding("cl_fix_read_format_file returns another number of formats than the file has", kind="length")
            got = r.els
        else:
            g = FileV()
            g.name, g.mode = "f.txt", "read_mode"
            got = [t.func(FIXIO, "cl_fix_read_format", [g, 0 if i else skip, i == len(recs) - 1]) for i in range(len(recs))]
            if recs and g.mode is not None:
                raise Finding("cl_fix_read_format: CloseAfter", kind="close")
        for (S, e1, e2), r in zip(want, got):
            for k, x in (("s", Expr.const(S)), ("i", e1), ("f", e2)):
                if not c.eq0(c.norm(c.norm(t.I.E(r.f[k])) - c.norm(x))):
                    raise Finding(f"a format of the file is read back with another {k.upper()}", kind="value")
    return fn


def ob_c23(tier):
    deep = tier != "quick"
    obs = []

    def add(name, fn, entry, weight=1):
        obs.append(Ob(name, P0(), fn, entry, weight))
    dk = 8 if deep else 5
    for kind, (ty, tm, hs, sg) in KINDS.items():
        for m in MODES:
            ws = [None] if tm is None else ([1, 3, 4] if deep or "bit" in kind.split() else [1, 3]) if m == "dec" else [1, 5, 8, 33]
            for w in ws:
                for rows, header in ((2, None), (2, "# header 1"), (0, "h"), (0, "")):
                    if (rows == 0 and w not in (None, 3, 5)) or (header and rows and w == ws[-1] and tm is not None):
                        continue
                    if header is None and rows == 2 or header is not None:
                        add(f"write_file / read_file {kind} {m} {w or 32} bits, {rows} rows" + (f", header '{header}'" if header is not None else ""),
                            roundtrip(kind, m, w, rows if tm is not None or not rows else 3 if m == "dec" else 1 if header else 2, header), "write_file, read_file", 3 if m == "dec" else 1)
        for m in MODES:
            n = 32 if tm is None else 8 if m != "dec" else 12
            k = n if m == "bin" else n // 4 if m == "hex" else 3
            for rows, cols, skip, sep in ((2, 3, 1, ", " if m == "dec" else " "), (1, 2, 0, ";" if m == "dec" else "  "), (3, 1, 2, " "), (0, 0, 1, " ")):
                if n == 32 and m != "dec" and rows * cols > 3:
                    rows, cols = 1, 2
                add(f"read_file {kind} {m}: {rows} x {cols} numbers, skip {skip}", columns(kind, m, n, rows, cols, skip, sep, k, (1, 2, 4) if sg else ()), "read_file")
            add(f"read(line) {kind} {m}", lread(kind, m, n, k, ", " if m == "dec" else " ", "", sg and m == "dec"), "read(line)")
            if m == "dec" and sg:
                add(f"read(line) {kind} dec after text", lread(kind, m, n, k, " x ", "abc ", True), "read(line)")
                add(f"read(line) {kind} dec, sign as delimiter", lread(kind, m, n, k, "", "", True), "read(line)")
            for how in ("proc", "func"):
                for skip, close in ((0, False), (2, True)):
                    add(f"read(file) {kind} {m} {how} skip_before={skip} close_after={close}", fread(kind, m, n, k, skip, close, how), "read(file)")
            wl = [None] if tm is None else [1, 2, 3, 4, dk] if m == "dec" else [1, 6, 8, 33]
            for w in wl:
                for old in (None, "", "12,"):
                    if old == "" and w not in (None, 3, 6):
                        continue
                    if old == "12," and w == dk and m == "dec" and not deep:
                        continue
                    add(f"write(line) {kind} {m} {w or 32} bits after {old!r}", lwrite(kind, m, w, old), "write(line)", 2 if m == "dec" else 1)
            if tm is not None and not kind.startswith("sulv"):
                add(f"write(file) {kind} {m}", fwrite(kind, m, 3 if m == "dec" else 6), "write(file)", 2)
        if tm is not None:
            for w in (1, 2, 4, 7, 8, 16, 31, 32, 33, 64) + ((100, 128) if deep else ()):
                add(f"decimal read {kind} {w} bits: both ends of the range", dread_max(kind, w), "dread")
            for w in ((8, 13, 32, 33) if kind in ("unsigned bit", "signed bit") or deep else (13,)) + ((7, 9, 10, 16, 31, 40, 64) if deep else ()):
                lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
                vals = sorted({lo, hi, hi // 3, -1 if sg else 1} | ({lo + 1, hi - 1, hi // 2, hi // 10 * 10, 5, 10} if deep else set()))
                add(f"decimal text {kind} {w} bits: ends of the range", lwide(kind, w, [x for x in vals if lo <= x <= hi]), "dwrite", 3)
    for kind in SCAL:
        for m in MODES:
            add(f"read(line) {kind} {m}", lread(kind, m, 1, 1, " "), "read(line)")
            for how in ("proc", "func"):
                for skip, close in ((0, False), (2, True)):
                    add(f"read(file) {kind} {m} {how} skip_before={skip} close_after={close}", fread(kind, m, 1, 1, skip, close, how), "read(file)")
    for m in MODES:
        for rows, cols, skip, sep, lead, trail in ((2, 3, 0, " ", "", ""), (1, 1, 2, " ", "", ""), (3, 4, 1, ", ", " ", " "), (0, 0, 1, " ", "", ""), (0, 0, 0, " ", "", ""), (1, 0, 1, " ", "", "")):
            add(f"file size {m}: {rows} x {cols}, skip {skip}", sizes(m, rows, cols, skip, sep, lead, trail), "get_file_size_lines, get_file_size_columns")
    for ty in ARRS:
        for n, w in ((0, 3), (1, 1), (1, 4), (3, 2), (2, 5)) + (((5, 3), (4, 8)) if deep else ()):
            add(f"Flatten / Unflatten / Numel {ty}: {n} x {w} bits", flat(ty, n, w), "Flatten, Unflatten, Numel")
        for n1, n2 in ((0, 0), (1, 1), (2, 2), (1, 2), (2, 1), (0, 1)):
            for chk in (False, True):
                add(f"check_equal {ty} {n1} / {n2} elements" + (", checker" if chk else ""), checks(ty, n1, n2, chk), "check_equal")
    for tm in ("bit_vector", UB, SB):
        for chk in (False, True):
            add(f"check_equal {tm} {flav(tm) or ''}" + (", checker" if chk else ""), check_vec(tm, chk), "check_equal")
    for m in MODES:
        for S, I, F in ((1, 1, 1), (0, 2, 1), (1, 3, -2), (0, 5, -3)) if m == "dec" else ((1, 3, 4), (0, 5, 4), (1, -2, 9), (0, 40, 2)):
            for rows, header in ((2, None), (2, "# head"), (0, "h")):
                add(f"cl_fix_write_file / cl_fix_read_file ({S},{I},{F}) {m}, {rows} rows, header {header!r}", fixfile(S, I, F, m, rows, header), "cl_fix_write_file")
            for how in ("line", "file"):
                add(f"cl_fix_write / cl_fix_read ({S},{I},{F}) {m} {how}", fixline(S, I, F, m, how), "cl_fix_write")
    d1, d2, n1, n2 = (1, False), (2, False), (1, True), (2, True)
    for shapes, skip in (([], 1), ([], 0), ([(1, d1, d2)], 1), ([(0, n1, d2), (1, d2, n2)], 0), ([(1, d2, d1), (0, d1, n1), (1, n2, d2)], 2)):
        for how in ("file", "each"):
            add(f"format file: {len(shapes)} formats, skip {skip}, {how}", fmt_file(shapes, skip, how), "cl_fix_write_format_file, cl_fix_read_format_file")
    for shapes, sc in (([(1, d1, d2)], True), ([(1, d2, n1)], False), ([(0, n2, d2), (1, d1, d1)], False), ([(0, d1, d1), (0, d2, n1), (1, n1, d2)], False), ([], False)):
        obs.append(Ob(f"format file written by Python: {len(shapes)} formats" + (", scalar" if sc else ""), fmt_poly("abc"[:len(shapes)]), py_fmt_file(shapes, sc),
                      "cl_fix_write_formats, cl_fix_read_format_file"))
    return obs


if __name__ == "__main__":
    import sys
    from ob import run_all, run_ob, print_res
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    obs = [o for o in ob_c23(sys.argv[2] if len(sys.argv) > 2 else "quick") if pat in o.name]
    rs = run_all(obs, "quick")
    from collections import Counter
    bad = [r for r in rs if r["verdict"] != "proved"]
    seen = set()
    for r in bad:
        k = (r["verdict"], tuple(r["reasons"]), tuple(f["what"][:30] for f in r["findings"][:1]))
        if k not in seen and len(seen) < 14:
            seen.add(k)
            print_res(r)
    print(Counter(r["verdict"] for r in rs), "max wall", max(r["wall"] for r in rs), sum(r["wall"] for r in rs))
    for r in sorted(rs, key=lambda r: -r["wall"])[:6]:
        print(r["wall"], r["name"], r["paths"])
