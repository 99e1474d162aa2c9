"""Common set-up for obligations over the Python model: symbolic formats, data, result decoding, oracles."""
import os
from fractions import Fraction
from poly import Lin, Poly
from num import Expr, Ctx, explore, Undecided, Infeasible
import pyabs as A

REPO = os.environ.get("VERIF_REPO", "/repo")
PK = os.path.join(REPO, "bittrue/models/python/en_cl_fix_pkg")
ROUND = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SAT = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]
BOUND = 400
NARROW = 53
E0 = Expr.const


def v(n):
    return Lin.var(n)


def fmt_poly(names, extra=(), bound=BOUND, pre=None):
    """Polyhedron of all valid formats  S in {0,1}, I+F >= 0, width >= 1, |I|,|F| <= bound."""
    P = Poly.top([n + x for n in names for x in "SIF"] + list(extra))
    for n in names:
        S, I, F = v(n + "S"), v(n + "I"), v(n + "F")
        P = P.add(S).add(1 - S).add(I + F).add(I + F + S - 1)
        for x in (I, F):
            P = P.add(x + bound).add(bound - x)
    for x in extra:
        P = P.add(v(x) + bound).add(bound - v(x))
    return P


class Finding(Exception):
    """a definite deviation on this path"""
    def __init__(self, msg, pred=None, where=None, kind=""):
        self.msg, self.pred, self.where, self.kind = msg, pred, where, kind


def dimsof(form, K):
    """shape of the value of an input form"""
    return {"arr": (K,), "list": (K,), "row": (1, K), "col": (K, 1)}.get(form, ())


def ndof(form, K):
    return A.mknd(dimsof(form, K))


class Sess:
    """One abstract run: the package is loaded (interpreted) afresh, inputs are created symbolically."""

    def __init__(self, c, summaries=None):
        self.c = c
        self.I = A.Interp(c, PK, summaries)
        self.t = self.I.module("en_cl_fix_types")
        self.m = self.I.module("en_cl_fix")

    def mod(self, n):
        p = self.I.phase
        m = self.I.module(n)
        self.I.phase = p
        return m

    def cls(self, n):
        for m in self.I.mods.values():
            if n in m.ns and isinstance(m.ns[n], A.Cls):
                return m.ns[n]
        m = self.mod({"NarrowFix": "narrow_fix", "WideFix": "wide_fix"}[n])
        return m.ns[n]

    def enum(self, cls, name):
        return self.I.getattr(self.t.ns[cls], name)

    def rnd(self, n):
        return self.enum("FixRound", n)

    def sat(self, n):
        return self.enum("FixSaturate", n)

    def fmt(self, S, I, F, tag="fresh"):
        o = A.Inst(self.t.ns["FixFormat"])
        o.attrs = {"S": self.c.lin(S), "I": self.c.lin(I), "F": self.c.lin(F)}
        o.tag = tag
        return o

    def pfmt(self, n):
        return self.fmt(v(n + "S"), v(n + "I"), v(n + "F"), tag=f"input:{n}_fmt")

    def fields(self, f):
        return tuple(self.c.lin(Lin.of(f.attrs[k])) for k in "SIF")

    def bounds(self, S, I, F):
        """integer-domain bounds of a format"""
        W = self.c.lin(I + F)
        lo = Expr()
        if not self.c.lin_eq0(self.c.lin(Lin.of(S))):
            lo = -Expr.pow2(self.c.lin(W))
        return lo, Expr.pow2(self.c.lin(W)) - 1

    def is_wide(self, S, I, F):
        return self.c.decide_lin(Lin.of(S) + I + F - (NARROW + 1))

    def data(self, name, S, I, F, form="arr", K=1, wide=None):
        """abstract input data in the documented representation -> (value, [int Expr])"""
        lo, hi = self.bounds(S, I, F)
        if wide is None:
            wide = self.is_wide(S, I, F)
        ns = [self.c.new_input(f"{name}{i}" if K > 1 else name, lo, hi) for i in range(K)]
        F = self.c.lin(F)
        if wide:
            els = [self.I.mk("int", n) for n in ns]
            if form in ("sc", "npsc"):
                return els[0], ns
            return A.Arr(els, "O", ndof(form, K), tag=f"input:{name}"), ns
        es = [self.c.norm(n.shift(-F)) for n in ns]
        if form == "sc":
            return A.Sc("float", es[0]), ns
        if form == "npsc":
            return A.Sc("f8", es[0]), ns
        return A.Arr(es, "f8", ndof(form, K), tag=f"input:{name}"), ns

    def fix(self, clsname, arr, f):
        """a NarrowFix / WideFix object holding arr (constructed by the package's own constructor)"""
        x = self.I.call(self.cls(clsname), [arr, f], {})
        # from here on the object is the caller's: changes of its data or format are effects on the caller
        d, g = x.attrs.get("_data"), x.attrs.get("_fmt")
        if isinstance(d, A.Arr) and d.buf.tag == "fresh":
            d.buf.tag = "input:operand data"
        if isinstance(g, A.Inst) and g.tag == "fresh":
            g.tag = "input:operand format"
        x.tag = "input:operand"
        return x

    def call(self, f, args, kw=None):
        self.I.phase = "run"
        return self.I.call(f, list(args), dict(kw or {}))

    def api(self, name):
        if name not in self.m.ns:
            raise Missing(f"{name} not found in en_cl_fix.py")
        return self.m.ns[name]

    def meth(self, cls, name):
        c = self.cls(cls)
        if not c.has(name):
            raise Missing(f"{cls}.{name} not found")
        return self.I.getattr(c, name)

    # ------------------------------------------------------------ results
    def decode(self, r, S, I, F, wide=None, what="result", K=1, nd=1, repr_check=True):
        """result in the representation of the format -> list of integer-domain Exprs.
        Anything else is a representation finding."""
        c = self.c
        if wide is None:
            wide = self.is_wide(S, I, F)
        if isinstance(r, A.Arr):
            els = [self.I.el_scalar(r, i) for i in range(len(r.els))]
            shp = A.dims(r)
            dt = r.dtype
        elif isinstance(r, (A.Sc, int, Lin)) and not isinstance(r, bool):
            els, shp = [r], ()
            dt = "O" if isinstance(r, (int, Lin)) or r.ty == "int" else ("f8" if r.ty in ("f8", "float") else r.ty)
        else:
            raise Finding(f"{what} has type {type(r).__name__}", kind="repr")
        if repr_check:
            want = nd.dims if isinstance(nd, A.Nd) else (K,) if nd else ()
            if len(els) != K or tuple(shp) != want:
                raise Finding(f"{what} has shape {tuple(shp)}, expected {want}", kind="shape")
            if dt != ("O" if wide else "f8"):
                raise Finding(f"{what} has dtype {dt}, expected {'object (int)' if wide else 'float64'}", kind="repr")
        out = []
        for x in els:
            if isinstance(x, A.Special):
                raise Finding(f"{what} is not finite", kind="repr")
            if isinstance(x, (bool, A.BoolNp)) or not isinstance(x, (int, Lin, A.Sc)):
                raise Finding(f"{what} element has type {type(x).__name__}", kind="repr")
            ty, e = self.I.num(x)
            if dt == "O" and ty not in ("int",):
                raise Finding(f"{what} element is {ty}, expected arbitrary-precision int", kind="repr")
            if dt == "O":
                out.append(c.norm(e))
            else:
                out.append(c.norm(e.shift(c.lin(Lin.of(F)))))
        return out

    def bools(self, r, K=1):
        if isinstance(r, (bool, A.BoolNp)):
            return [self.I.truth(r)]
        if isinstance(r, A.Arr) and r.dtype == "b":
            return [bool(x) for x in r.els]
        raise Finding(f"boolean result expected, got {r!r}", kind="repr")

    # ------------------------------------------------------------ equality obligations
    def same(self, got, want, what, **kw):
        """got == want on the whole cell"""
        c = self.c
        d = c.norm(Expr.of(got) - Expr.of(want))
        if d.is_zero() or c.is_zero(d) is True:
            return
        if c.eq0(d):
            return
        raise Finding(what, kind="value", pred=None, where=(got, want))

    def ge(self, e, what):
        c = self.c
        if c.decide(c.norm(e)):
            return
        raise Finding(what, kind="value")


class Missing(Exception):
    pass


# ----------------------------------------------------------------- oracles (integer domain)
def spec_round(c, n, k, mode):
    """n at F frac bits -> integer at F-k frac bits; k Lin (any sign). Written from the documented
    definition: nearest value, ties by mode (Trunc: towards -inf)."""
    k = c.lin(k)
    if not c.decide_lin(k - 1):
        return c.norm(c.norm(n).shift(-c.lin(k)))
    k = c.lin(k)
    q = c.floor_div(c.norm(n), k)
    q = c.norm(q)
    if mode == "Trunc_s":
        return q
    k = c.lin(k)
    r = c.norm(c.norm(n) - q.shift(k))
    half = Expr.pow2(k - 1)
    d = c.norm(r - half)
    if c.decide(d, True):
        return c.norm(c.norm(q) + 1)
    d = c.norm(d)
    if not c.eq0(d):
        return c.norm(q)
    # tie between q and q+1
    q = c.norm(q)
    if mode == "NonSymPos_s":
        up = True
    elif mode == "NonSymNeg_s":
        up = False
    elif mode in ("SymInf_s", "SymZero_s"):
        neg = not c.decide(q)            # value is q + 1/2
        up = (not neg) if mode == "SymInf_s" else neg
    else:
        h = c.floor_div(c.norm(q), Lin(1))
        odd = c.norm(c.norm(q) - c.norm(h) * 2)
        isodd = not c.eq0(odd)
        up = isodd if mode == "ConvEven_s" else not isodd
    return c.norm(c.norm(q) + (1 if up else 0))


def spec_sat(c, n, lo, hi, mode, span):
    """n integer -> clipped or wrapped into [lo, hi] (span = hi-lo+1 = 2^span)."""
    n = c.norm(n)
    if mode in ("Sat_s", "SatWarn_s"):
        if not c.decide(c.norm(hi - n)):
            return c.norm(hi)
        if not c.decide(c.norm(n - c.norm(lo))):
            return c.norm(lo)
        return c.norm(n)
    q = c.floor_div(c.norm(n - lo), span)
    return c.norm(c.norm(n) - c.norm(q).shift(c.lin(span)))
