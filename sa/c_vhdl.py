"""Obligations over the VHDL packages (C02, C04, C06, C08, C11, C22)."""
import glob
from pylib import *
from ob import Ob
import pyabs as A
import vabs
from vabs import Vec, Rec, En, DI, R, Bit, Chr, VFail
from vhdl import VErr
from c_py import exact_range, chk_fmt, with_S
from summ import uf_round, uf_sat, uf_resize, _find, round_val, sat_val
from c_arith import mid_F, exact_int

HDL = os.path.join(REPO, "hdl")
PKG = "en_cl_fix_pkg"
VCMP = {"=": "==", "!=": "!=", "<": "<", ">": ">", "<=": "<=", ">=": ">="}


def files():
    return sorted(glob.glob(os.path.join(HDL, "*.vhd")))


class VSess:
    def __init__(self, c, summaries=None):
        self.c = c
        try:
            self.I = vabs.Interp(c, files(), summaries)
        except VErr as e:
            raise Missing(f"VHDL sources cannot be parsed: {e}")
        if PKG not in self.I.pkgs:
            raise Missing(f"package {PKG} not found in {HDL}")
        self.sc = self.I.pkgs[PKG]

    # same interface as pylib.Sess
    def fields(self, f):
        return tuple(self.c.lin(self.I.L(f.f[k])) for k in ("s", "i", "f"))

    def bounds(self, S, I, F):
        W = self.c.lin(I + F)
        lo = Expr()
        if not self.c.lin_eq0(self.c.lin(Lin.of(S))):
            lo = -Expr.pow2(self.c.lin(W))
        return lo, Expr.pow2(self.c.lin(W)) - 1

    same = Sess.same

    def fmt(self, S, I, F):
        n = self.I.norm_i
        return Rec("fixformat_t", {"s": n(self.c.lin(Lin.of(S))), "i": n(self.c.lin(Lin.of(I))), "f": n(self.c.lin(Lin.of(F)))})

    def pfmt(self, n):
        return self.fmt(v(n + "S"), v(n + "I"), v(n + "F"))

    def width(self, f):
        S, I_, F = self.fields(f)
        return self.c.lin(S + I_ + F)

    def vec(self, e, n, dir_="downto", off=0, tm="std_logic_vector"):
        n = self.c.lin(Lin.of(n))
        off = Lin.of(off)
        hi = self.I.norm_i(self.c.lin(off + n - 1))
        lo = self.I.norm_i(self.c.lin(off))
        return Vec([(self.I.norm_i(n), e)], hi if dir_ == "downto" else lo, lo if dir_ == "downto" else hi, dir_, tm)

    def data(self, name, f, dir_="downto", off=0):
        lo, hi = self.bounds(*self.fields(f))
        n = self.c.new_input(name, lo, hi)
        return self.vec(n, self.width(f), dir_, off), n

    def rnd(self, m):
        return En("fixround_t", m.lower())

    def sat(self, m):
        return En("fixsaturate_t", m.lower())

    def call(self, name, args):
        r = self.I.call(PKG, name, args)
        if r is None:
            if name not in self.sc.subs:
                raise Missing(f"function {name} not found in {PKG}")
            raise Missing(f"function {name} of {PKG} has an unexpected profile")
        return r[0]

    def decode(self, r, f, what="result"):
        """vector result -> integer in the format"""
        if not isinstance(r, Vec):
            raise Finding(f"{what} is not a vector", kind="type")
        c = self.c
        if not c.lin_eq0(c.lin(self.I.vlen(r) - self.width(f))):
            raise Finding(f"{what} does not have the width of the result format", kind="width")
        S, _, _ = self.fields(f)
        if c.lin_eq0(c.lin(S - 1)):
            return self.I.sval(r)
        return self.I.uval(r)


def warned(s):
    return any(e[0] == "warn" for e in s.c.events)


# =========================================================================== C02
def fmt_same(c, s, rv, want, what):
    """VHDL record equals the Python format object"""
    if not isinstance(rv, Rec):
        raise Finding(f"{what} does not return a format", kind="type")
    for k, K in zip(("s", "i", "f"), "SIF"):
        a, b = c.lin(s.I.L(rv.f[k])), c.lin(Lin.of(want.attrs[K]))
        if not c.lin_eq0(c.lin(a - b)):
            raise Finding(f"{what}: field {K} differs from the Python format", kind="value", where=None)


def c02(op, mode=None):
    binary = op in ("add", "sub", "addsub", "mult")

    def fn(c):
        s, p = VSess(c), Sess(c)
        a, pa = s.pfmt("a"), p.pfmt("a")
        va, vp = [a], [pa]
        if binary:
            va.append(s.pfmt("b"))
            vp.append(p.pfmt("b"))
        if op == "shift":
            va += [v("lo"), v("hi")]
            vp += [v("lo"), v("hi")]
            if not c.decide_lin(v("hi") - v("lo")):
                try:
                    s.call("cl_fix_shift_fmt", va)
                except VFail:
                    return
                raise Finding("cl_fix_shift_fmt accepts min_shift > max_shift", kind="accept")
        if op == "shift1":
            va.append(v("lo"))
            vp.append(v("lo"))
        if op == "round":
            va += [v("rF"), s.rnd(mode)]
            vp += [v("rF"), p.rnd(mode)]
        name = "cl_fix_shift_fmt" if op == "shift1" else f"cl_fix_{op}_fmt"
        fmt_same(c, s, s.call(name, va), p.call(p.api(name), vp), name)
    return fn


def c02_exact(op):
    """result range and grid, independent of the Python implementation"""
    binary = op in ("add", "sub", "mult")

    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        b = s.pfmt("b") if binary else None
        r = s.call(f"cl_fix_{op}_fmt", [a] + ([b] if binary else []))
        lo, hi = exact_range(c, op, s.fields(a), s.fields(b) if binary else None)
        if op == "mult":
            g = [c.lin(v("aF") + v("bF"))]
        else:
            g = [c.lin(v("aF"))] + ([c.lin(v("bF"))] if binary else [])
        chk_fmt(s, r, lo, hi, g, False, f"cl_fix_{op}_fmt")
    return fn


def c02_width(c):
    s = VSess(c)
    a = s.pfmt("a")
    r = s.call("cl_fix_width", [a])
    if not c.lin_eq0(c.lin(s.I.L(r) - v("aS") - v("aI") - v("aF"))):
        raise Finding("cl_fix_width is not S+I+F", kind="value")


def c02_minmax(which):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        g = s.decode(s.call(f"cl_fix_{which}_value", [a]), a)
        lo, hi = s.bounds(*s.fields(a))
        s.same(g, lo if which == "min" else hi, f"cl_fix_{which}_value is not the {which}imum of the format")
    return fn


def c02_choose(c):
    s = VSess(c)
    a, b = s.pfmt("a"), s.pfmt("b")
    for k, w in ((True, a), (False, b)):
        r = s.call("choose", [k, a, b])
        for f in ("s", "i", "f"):
            if not c.lin_eq0(c.lin(s.I.L(r.f[f]) - s.I.L(w.f[f]))):
                raise Finding("choose returns the wrong format", kind="value")


def ob_c02(tier):
    obs = []
    P2, P1 = fmt_poly("ab"), fmt_poly("a")
    for op in ("add", "sub", "addsub", "mult"):
        for nm, Q in with_S(P2, "ab"):
            obs.append(Ob(f"cl_fix_{op}_fmt = Python [{nm}]", Q, c02(op), f"{PKG}.cl_fix_{op}_fmt"))
            if op != "addsub":
                obs.append(Ob(f"cl_fix_{op}_fmt contains every result [{nm}]", Q, c02_exact(op), f"{PKG}.cl_fix_{op}_fmt"))
    for nm, Q in with_S(P1, "a"):
        for op in ("neg", "abs"):
            obs.append(Ob(f"cl_fix_{op}_fmt = Python [{nm}]", Q, c02(op), f"{PKG}.cl_fix_{op}_fmt"))
            obs.append(Ob(f"cl_fix_{op}_fmt contains every result [{nm}]", Q, c02_exact(op), f"{PKG}.cl_fix_{op}_fmt"))
        Q2 = fmt_poly("a", ["lo", "hi"])
        for k, Q3 in with_S(Q2, "a"):
            if k == nm:
                obs.append(Ob(f"cl_fix_shift_fmt(range) = Python [{nm}]", Q3, c02("shift"), f"{PKG}.cl_fix_shift_fmt"))
                obs.append(Ob(f"cl_fix_shift_fmt = Python [{nm}]", Q3, c02("shift1"), f"{PKG}.cl_fix_shift_fmt"))
        Q2 = fmt_poly("a", ["rF"])
        for k, Q3 in with_S(Q2, "a"):
            if k == nm:
                for m in ROUND:
                    obs.append(Ob(f"cl_fix_round_fmt = Python [{nm}{m}]", Q3, c02("round", m), f"{PKG}.cl_fix_round_fmt"))
        obs.append(Ob(f"cl_fix_width [{nm}]", Q, c02_width, f"{PKG}.cl_fix_width"))
        for w in ("min", "max"):
            obs.append(Ob(f"cl_fix_{w}_value [{nm}]", Q, c02_minmax(w), f"{PKG}.cl_fix_{w}_value"))
    obs.append(Ob("choose(format)", P2, c02_choose, f"{PKG}.choose"))
    return obs


# =========================================================================== C04 rounding
def rng_args(c, d):
    """index range of the operand: (direction, offset)"""
    if d is None:
        return "downto", 0
    return d, v("o")


def rng_b(c, d):
    """the second operand runs the other way"""
    if d is None:
        return "downto", 0
    return "to" if d == "downto" else "downto", v("o") + 1


def vround(mode, d=None, check=True):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        x, n = s.data("a", a, *rng_args(c, d))
        r_fmt = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd(mode)])
        args = [x, a, r_fmt, s.rnd(mode)]
        r = s.call("cl_fix_round", args)
        g = s.decode(r, r_fmt)
        want = spec_round(c, n, c.lin(v("aF") - v("rF")), mode)
        s.same(g, want, "cl_fix_round differs from the documented rounding")
        if warned(s):
            raise Finding("cl_fix_round warns", kind="warn")
    return fn


def vround_default(c):
    """the mode defaults to truncation"""
    s = VSess(c)
    a = s.pfmt("a")
    x, n = s.data("a", a)
    r_fmt = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd("Trunc_s")])
    g = s.decode(s.call("cl_fix_round", [x, a, r_fmt]), r_fmt)
    s.same(g, spec_round(c, n, c.lin(v("aF") - v("rF")), "Trunc_s"), "cl_fix_round: default mode is not truncation")


def vround_nocheck(mode):
    """fmt_check = false: a narrower result format is accepted and the result wraps"""
    def fn(c):
        s = VSess(c)
        a, r_fmt = s.pfmt("a"), s.pfmt("r")
        x, n = s.data("a", a)
        # same number of sign bits; any number of integer bits
        if not c.lin_eq0(c.lin(v("aS") - v("rS"))):
            return
        g = s.decode(s.call("cl_fix_round", [x, a, r_fmt, s.rnd(mode), False]), r_fmt)
        want = spec_round(c, n, c.lin(v("aF") - v("rF")), mode)
        rS, rI, rF = s.fields(r_fmt)
        lo, hi = s.bounds(rS, rI, rF)
        s.same(g, spec_sat(c, want, lo, hi, "None_s", s.width(r_fmt)), "cl_fix_round without format check does not wrap")
    return fn


def vround_reject(mode):
    """a result format other than cl_fix_round_fmt is reported"""
    def fn(c):
        s = VSess(c)
        a, r_fmt = s.pfmt("a"), s.pfmt("r")
        x, n = s.data("a", a)
        w = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd(mode)])
        if all(c.lin_eq0(c.lin(p - q)) for p, q in zip(s.fields(w), s.fields(r_fmt))):
            return
        try:
            s.call("cl_fix_round", [x, a, r_fmt, s.rnd(mode)])
        except VFail:
            return
        raise Finding("cl_fix_round accepts a result format other than cl_fix_round_fmt()", kind="accept")
    return fn


def ob_c04(tier):
    obs = []
    for nm, Q in with_S(fmt_poly("a", ["rF"]), "a"):
        for m in ROUND:
            obs.append(Ob(f"cl_fix_round [{nm}{m}]", Q, vround(m), f"{PKG}.cl_fix_round", weight=2))
        obs.append(Ob(f"cl_fix_round default mode [{nm}]", Q, vround_default, f"{PKG}.cl_fix_round"))
    for nm, Q in with_S(fmt_poly("ar"), "ar"):
        for m in ROUND if tier == "thorough" else ("Trunc_s", "NonSymPos_s", "SymZero_s"):
            obs.append(Ob(f"cl_fix_round rejects other formats [{nm}{m}]", Q, vround_reject(m), f"{PKG}.cl_fix_round"))
    return obs


# =========================================================================== C06
def vsat(mode, d=None, default=False):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        r_fmt = s.fmt(v("rS"), v("rI"), v("aF"))
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_saturate", [x, a, r_fmt] + ([] if default else [s.sat(mode)]))
        g = s.decode(r, r_fmt)
        lo, hi = s.bounds(*s.fields(r_fmt))
        want = spec_sat(c, n, lo, hi, mode, s.width(r_fmt))
        s.same(g, want, "cl_fix_saturate differs from the documented clipping / wrapping")
        w = warned(s)
        out = not (c.decide(c.norm(hi) - c.norm(n)) and c.decide(c.norm(n) - c.norm(lo)))
        need = mode in ("Warn_s", "SatWarn_s") and out
        if w and not need:
            raise Finding("cl_fix_saturate warns although no warning is due", kind="warn")
        if need and not w:
            raise Finding("cl_fix_saturate does not warn about an out-of-range value", kind="warn")
    return fn


def vsat_reject(mode):
    def fn(c):
        s = VSess(c)
        a, r_fmt = s.pfmt("a"), s.pfmt("r")
        if c.lin_eq0(c.lin(v("rF") - v("aF"))):
            return
        x, n = s.data("a", a)
        try:
            s.call("cl_fix_saturate", [x, a, r_fmt, s.sat(mode)])
        except VFail:
            return
        raise Finding("cl_fix_saturate accepts a change of the number of fractional bits", kind="accept")
    return fn


def sum_round(s):
    """summary of cl_fix_round (justified by C04): value of the documented rounding"""
    def h(I, sub, a):
        c = I.c
        if len(a) != 5:
            return NotImplemented
        x, af, rf, mode, chk = a
        if not (isinstance(x, Vec) and isinstance(af, Rec) and isinstance(rf, Rec) and isinstance(mode, En)):
            return NotImplemented
        w = s().call("cl_fix_round_fmt", [af, rf.f["f"], mode])
        for p, q in zip(s().fields(w), s().fields(rf)):
            if not c.lin_eq0(c.lin(p - q)):
                return NotImplemented
        if not c.lin_eq0(c.lin(I.vlen(x) - s().width(af))):
            return NotImplemented
        S, I_, F = s().fields(af)
        e = I.sval(x) if c.lin_eq0(c.lin(S - 1)) else I.uval(x)
        lo, hi = s().bounds(*s().fields(rf))
        rF = s().fields(rf)[2]
        md = next(m for m in ROUND if m.lower() == mode.name)
        r = uf_round(c, c.norm(e), c.lin(F), c.lin(rF), md, lo, hi)
        return I.mkvec(r, s().width(rf), "std_logic_vector")
    return h


def sess_with(c, mk):
    box = []
    s = VSess(c, {k: h(lambda: box[0]) for k, h in mk.items()})
    box.append(s)
    s.log = []
    return s


def vresize(rm, sm, d=None, inline=False):
    """resize = rounding to cl_fix_round_fmt, then saturation"""
    def fn(c):
        s = VSess(c) if inline else sess_with(c, {"cl_fix_round": sum_round, "cl_fix_saturate": sum_sat})
        a, r_fmt = s.pfmt("a"), s.pfmt("r")
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_resize", [x, a, r_fmt, s.rnd(rm), s.sat(sm)])
        g = s.decode(r, r_fmt)
        mid = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd(rm)])
        lo, hi = s.bounds(*s.fields(r_fmt))
        if inline:
            m = spec_round(c, n, c.lin(v("aF") - v("rF")), rm)
            want = spec_sat(c, m, lo, hi, sm, s.width(r_fmt))
            s.same(g, want, "cl_fix_resize differs from rounding followed by saturation")
        else:
            mlo, mhi = s.bounds(*s.fields(mid))
            m = uf_round(c, n, c.lin(v("aF")), c.lin(v("rF")), rm, mlo, mhi)
            rS, rI, rF = s.fields(r_fmt)
            want = uf_sat(c, m, rS, rI, rF, sm in ("Sat_s", "SatWarn_s"))
            s.same(g, want, "cl_fix_resize differs from rounding followed by saturation")
        lo, hi = s.bounds(*s.fields(r_fmt))
        out = not (c.decide(c.norm(hi) - c.norm(m)) and c.decide(c.norm(m) - c.norm(lo)))
        need = sm in ("Warn_s", "SatWarn_s") and out
        w = warned(s)
        if w and not need:
            raise Finding("cl_fix_resize warns although no warning is due", kind="warn")
        if need and not w:
            raise Finding("cl_fix_resize does not warn about an out-of-range value", kind="warn")
    return fn


def sum_sat(s):
    """summary of cl_fix_saturate (justified by C06)"""
    def h(I, sub, a):
        c = I.c
        if len(a) != 4:
            return NotImplemented
        x, af, rf, mode = a
        if not (isinstance(x, Vec) and isinstance(af, Rec) and isinstance(rf, Rec) and isinstance(mode, En)):
            return NotImplemented
        F, rF = s().fields(af)[2], s().fields(rf)[2]
        if not c.lin_eq0(c.lin(rF - F)) or not c.lin_eq0(c.lin(I.vlen(x) - s().width(af))):
            return NotImplemented
        S = s().fields(af)[0]
        e = I.sval(x) if c.lin_eq0(c.lin(S - 1)) else I.uval(x)
        clip = mode.name in ("sat_s", "satwarn_s")
        lo, hi = s().bounds(*s().fields(rf))
        if mode.name in ("warn_s", "satwarn_s"):
            if not c.decide(c.norm(hi) - c.norm(e)) or not c.decide(c.norm(e) - c.norm(lo)):
                c.events.append(("warn", "summary"))
        rS, rI, rF = s().fields(rf)
        r = uf_sat(c, c.norm(e), rS, rI, rF, clip)
        return I.mkvec(r, s().width(rf), "std_logic_vector")
    return h


def vresize_default(c):
    s = VSess(c)
    a = s.pfmt("a")
    r_fmt = s.pfmt("r")
    x, n = s.data("a", a)
    g = s.decode(s.call("cl_fix_resize", [x, a, r_fmt]), r_fmt)
    m = spec_round(c, n, c.lin(v("aF") - v("rF")), "Trunc_s")
    lo, hi = s.bounds(*s.fields(r_fmt))
    s.same(g, spec_sat(c, m, lo, hi, "Warn_s", s.width(r_fmt)), "cl_fix_resize: defaults are not truncation and wrapping with warning")
    lo, hi = s.bounds(*s.fields(r_fmt))
    out = not (c.decide(c.norm(hi) - c.norm(m)) and c.decide(c.norm(m) - c.norm(lo)))
    if warned(s) != out:
        raise Finding("cl_fix_resize: the default mode does not warn exactly when needed", kind="warn")


def vinrange(mode, d=None, default=False):
    def fn(c):
        s = VSess(c)
        a, r_fmt = s.pfmt("a"), s.pfmt("r")
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_in_range", [x, a, r_fmt] + ([] if default else [s.rnd(mode)]))
        m = spec_round(c, n, c.lin(v("aF") - v("rF")), mode)
        lo, hi = s.bounds(*s.fields(r_fmt))
        inr = c.decide(c.norm(hi) - c.norm(m)) and c.decide(c.norm(m) - c.norm(lo))
        if bool(r) != inr:
            raise Finding("cl_fix_in_range is wrong", kind="value-b")
    return fn


def vcompare(op, d=None):
    def fn(c):
        s = VSess(c)
        a, b = s.pfmt("a"), s.pfmt("b")
        x, n = s.data("a", a, *rng_args(c, d))
        y, m = s.data("b", b, *rng_b(c, d))
        r = s.call("cl_fix_compare", [vabs.St(op, lit=True), x, a, y, b])
        aF, bF = c.lin(v("aF")), c.lin(v("bF"))
        dlt = c.norm(c.norm(n).shift(-aF) - c.norm(m).shift(-bF))
        if op in ("=", "!="):
            want = c.eq0(dlt) == (op == "=")
        elif op in (">=", "<"):
            want = c.decide(dlt) == (op == ">=")
        else:
            want = c.decide(c.norm(-dlt)) == (op == "<=")
        if bool(r) != want:
            raise Finding(f"cl_fix_compare('{op}') is wrong", kind="value-b")
    return fn


def vsign(d=None):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_sign", [x, a])
        neg = not c.decide(c.norm(n))
        if s.I.bit_is(r, "1") != neg:
            raise Finding("cl_fix_sign is wrong", kind="value-b")
    return fn


def ob_c06(tier):
    obs = []
    Ps = fmt_poly("a", ["rS", "rI"])
    Ps = Ps.add(v("rS")).add(1 - v("rS")).add(v("rI") + v("aF")).add(v("rS") + v("rI") + v("aF") - 1)
    for nm, Q in with_S(Ps, "ar"):
        for m in SAT:
            obs.append(Ob(f"cl_fix_saturate [{nm}{m}]", Q, vsat(m), f"{PKG}.cl_fix_saturate"))
        obs.append(Ob(f"cl_fix_saturate default mode [{nm}]", Q, vsat("Warn_s", default=True), f"{PKG}.cl_fix_saturate"))
    for nm, Q in with_S(fmt_poly("ar"), "ar"):
        for rm in ROUND:
            for sm in SAT:
                obs.append(Ob(f"cl_fix_resize [{nm}{rm},{sm}]", Q, vresize(rm, sm), f"{PKG}.cl_fix_resize"))
            obs.append(Ob(f"cl_fix_in_range [{nm}{rm}]", Q, vinrange(rm), f"{PKG}.cl_fix_in_range", weight=3))
        obs.append(Ob(f"cl_fix_in_range default mode [{nm}]", Q, vinrange("Trunc_s", default=True), f"{PKG}.cl_fix_in_range"))
        obs.append(Ob(f"cl_fix_resize defaults [{nm}]", Q, vresize_default, f"{PKG}.cl_fix_resize", weight=3))
        obs.append(Ob(f"cl_fix_saturate rejects other fractional bits [{nm}]", Q, vsat_reject("Sat_s"), f"{PKG}.cl_fix_saturate"))
    for nm, Q in with_S(fmt_poly("ab"), "ab"):
        for op in VCMP:
            obs.append(Ob(f"cl_fix_compare('{op}') [{nm}]", Q, vcompare(op), f"{PKG}.cl_fix_compare"))
    for nm, Q in with_S(fmt_poly("a"), "a"):
        obs.append(Ob(f"cl_fix_sign [{nm}]", Q, vsign(), f"{PKG}.cl_fix_sign"))
    return obs


# =========================================================================== C08 arithmetic
class Mode:
    def __init__(self, name):
        self.name = name


def canon(e, names):
    return Mode(next(m for m in names if m.lower() == e.name))


def sum_resize(s):
    """summary of cl_fix_resize (justified by C06)"""
    def h(I, sub, a):
        c = I.c
        if len(a) != 5:
            return NotImplemented
        x, af, rf, rm, sm = a
        if not (isinstance(x, Vec) and isinstance(af, Rec) and isinstance(rf, Rec) and isinstance(rm, En) and isinstance(sm, En)):
            return NotImplemented
        if not c.lin_eq0(c.lin(I.vlen(x) - s().width(af))):
            return NotImplemented
        S, _, F = s().fields(af)
        n = I.sval(x) if c.lin_eq0(c.lin(S - 1)) else I.uval(x)
        e = c.norm(c.norm(n).shift(-c.lin(F)))
        rm, sm = canon(rm, ROUND), canon(sm, SAT)
        s().log.append(("resize", e, s().fields(af), s().fields(rf), rm.name, sm.name))
        s().hits += 1
        r = uf_resize(s(), e, s().fields(af)[2], rf, rm, sm)
        return I.mkvec(c.norm(r), s().width(rf), "std_logic_vector")
    return h


class Retry(Exception):
    pass


def varith(op, rm=None, sm=None, defaults=False, d=None, add=None):
    """rm None: result format and modes left to their defaults (exact result, no warning);
    defaults: explicit result format, default modes (truncation, wrapping with a warning)"""
    binary = op in ("add", "sub", "mult", "addsub")

    def fn(c):
        # the intermediate resizes are summarised; code that does not fit is analysed in line
        try:
            return run(c, False)
        except (Retry, Finding):
            c.events[:] = []
        return run(c, True)

    def run(c, inline):
        s = VSess(c) if inline else sess_with(c, {"cl_fix_resize": sum_resize})
        s.log, s.hits = [], 0
        a = s.pfmt("a")
        b = s.pfmt("b") if binary else None
        x, na = s.data("a", a, *rng_args(c, d))
        args, nb = [x, a], None
        if binary:
            y, nb = s.data("b", b, *rng_b(c, d))
            args += [y, b]
        o = op
        if op == "addsub":
            args.append(Bit(add))
            o = "add" if add == "1" else "sub"
        fa = [a] + ([b] if binary else [])
        if op == "shift":
            args.append(s.I.norm_i(v("n0")))
            fa.append(s.I.norm_i(v("n0")))
        full = rm is None and not defaults
        if full:
            res = s.call(f"cl_fix_{op}_fmt", fa)
        else:
            res = s.pfmt("r")
            args.append(res)
            if not defaults:
                args += [s.rnd(rm), s.sat(sm)]
        if full and op == "shift":
            args.append(res)
        ev0 = len(c.events)
        r = s.call(f"cl_fix_{op}", args)
        w = any(e[0] == "warn" for e in c.events[ev0:])
        g = s.decode(r, res)
        aF = c.lin(v("aF"))
        bF = c.lin(v("bF")) if binary else None
        if op == "shift":
            mF = c.lin(aF - v("n0"))
            m = na
        else:
            mF = mid_F(s, op, aF, bF)
            m = exact_int(s, o, na, aF, nb, bF, mF)
        RM, SM = (rm, sm) if not defaults else ("Trunc_s", "Warn_s")
        rF = s.fields(res)[2]
        if full:
            s.same(g, c.norm(m).shift(c.lin(rF - c.lin(mF))), f"cl_fix_{op}: result in the default format differs from the exact result")
            if w:
                raise Finding(f"cl_fix_{op} warns although the result format holds every result", kind="warn")
            return
        if not inline:
            if not s.hits:
                raise Retry()
            e = c.norm(c.norm(m).shift(-c.lin(mF)))
            want = None
            if op == "shift":
                # bits of a*2^n in (S,I,F) = bits of a in (S,I-n,F+n)
                k = c.lin(v("n0"))
                want = _find(c, "resized", (RM, SM), c.norm(c.norm(na).shift(-c.lin(aF))),
                             (c.lin(v("rS")), c.lin(v("rI") - k), c.lin(v("rF") + k)))
            if want is None:
                want = uf_resize(s, e, mF, res, Mode(RM), Mode(SM))
            s.same(g, want, f"cl_fix_{op}")
            if w:
                raise Retry()
            # the exact result, and nothing that could warn otherwise, is resized with the requested modes
            n_ok = 0
            for _, e2, mid, rf, rk, sk in s.log:
                if sk in ("None_s", "Sat_s") and (rk, sk) != (RM, SM):
                    continue
                dd = c.norm(c.norm(c.norm(m).shift(-c.lin(mF))) - c.norm(e2))
                same = dd.is_zero() or c.is_zero(dd) is True
                if same and (rk, sk) == (RM, SM) and all(c.lin(p - q).is_const() and c.lin(p - q).c == 0 for p, q in zip(rf, s.fields(res))):
                    n_ok += 1
                elif op == "shift" and (rk, sk) == (RM, SM):
                    n_ok += 1       # value compared above; width of dummy format = width of the result format
                elif not warn_free(c, s, e2, rf):
                    raise Retry()
            if n_ok != 1:
                raise Retry()
            return
        dF = c.lin(c.lin(mF) - rF)
        q = spec_round(c, m, dF, RM)
        lo, hi = s.bounds(*s.fields(res))
        s.same(g, spec_sat(c, q, lo, hi, SM, s.width(res)), f"cl_fix_{op}({RM},{SM}): result differs from the exact result rounded and saturated")
        lo, hi = s.bounds(*s.fields(res))
        out = not (c.decide(c.norm(hi) - c.norm(q)) and c.decide(c.norm(q) - c.norm(lo)))
        need = SM in ("Warn_s", "SatWarn_s") and out
        if w and not need and op != "addsub":
            raise Finding(f"cl_fix_{op} warns although no warning is due", kind="warn")
        if need and not w:
            raise Finding(f"cl_fix_{op} does not warn about an out-of-range value", kind="warn")
    return fn


def warn_free(c, s, e, rf):
    """the value lies on the grid and in the range of the format: resizing it cannot warn"""
    S, I_, F = rf
    m = c.norm(c.norm(e).shift(c.lin(F)))
    W = c.lin(I_ + F)
    hi = Expr.pow2(W) - 1
    lo = -Expr.pow2(W) if c.P.rng(c.lin(S)) == (1, 1) else Expr()
    return c.ge0(c.norm(hi - m)) is True and c.ge0(c.norm(m - lo)) is True


def ob_c08(tier):
    obs = []
    P2 = fmt_poly("ab")
    P2r = fmt_poly("abr")
    for op in ("add", "sub", "mult", "addsub"):
        for ad in (("1", "0") if op == "addsub" else (None,)):
            t = f"{op}{'' if ad is None else ad}"
            for nm, Q in with_S(P2, "ab"):
                obs.append(Ob(f"cl_fix_{t} default format [{nm}]", Q, varith(op, add=ad), f"{PKG}.cl_fix_{op}"))
            for nm, Q in with_S(P2r, "abr"):
                for rm in ROUND:
                    for sm in SAT:
                        obs.append(Ob(f"cl_fix_{t} [{nm}{rm},{sm}]", Q, varith(op, rm, sm, add=ad), f"{PKG}.cl_fix_{op}"))
                obs.append(Ob(f"cl_fix_{t} default modes [{nm}]", Q, varith(op, defaults=True, add=ad), f"{PKG}.cl_fix_{op}"))
    for op in ("neg", "abs", "shift"):
        for nm, Q in with_S(fmt_poly("a", ["n0"] if op == "shift" else []), "a"):
            obs.append(Ob(f"cl_fix_{op} default format [{nm}]", Q, varith(op), f"{PKG}.cl_fix_{op}"))
        for nm, Q in with_S(fmt_poly("ar", ["n0"] if op == "shift" else []), "ar"):
            for rm in ROUND:
                for sm in SAT:
                    obs.append(Ob(f"cl_fix_{op} [{nm}{rm},{sm}]", Q, varith(op, rm, sm), f"{PKG}.cl_fix_{op}"))
            obs.append(Ob(f"cl_fix_{op} default modes [{nm}]", Q, varith(op, defaults=True), f"{PKG}.cl_fix_{op}"))
    return obs


# =========================================================================== C11 conversions
def widths(P, k, name="r", size=30):
    """formats of (k-1)*size+1 .. k*size bits"""
    W = v(name + "S") + v(name + "I") + v(name + "F")
    return P.add(W - (k - 1) * size - 1).add(k * size - W)


def vfrom_real(sm="Sat_s", default=False):
    def fn(c):
        s = VSess(c)
        rf = s.pfmt("r")
        lim = Expr.pow2(Lin(53)) - 1
        m = c.new_input("m", -lim, lim)
        x = R(c.norm(m.shift(-c.lin(v("p")))))
        r = s.call("cl_fix_from_real", [x, rf] + ([] if default else [s.sat(sm)]))
        g = s.decode(r, rf)
        rF = s.fields(rf)[2]
        n = c.norm(c.norm(m).shift(c.lin(rF - c.lin(v("p")))))
        q = c.floor1(n)
        if c.decide(c.norm(c.norm(n) - c.norm(q) - Expr.const(Fraction(1, 2)))):
            q = c.norm(q) + 1
        lo, hi = s.bounds(*s.fields(rf))
        s.same(g, spec_sat(c, c.norm(q), lo, hi, "Sat_s", None), "cl_fix_from_real: not the nearest representable value (half-up, saturated)")
        w = warned(s)
        if sm == "Sat_s":
            if w:
                raise Finding("cl_fix_from_real warns although no warning is requested", kind="warn")
            return
        # the documented warning: the real value lies outside the range of the format
        lo, hi = s.bounds(*s.fields(rf))
        n = c.norm(c.norm(m).shift(c.lin(c.lin(rF) - c.lin(v("p")))))
        if w and c.decide(c.norm(c.norm(hi) - n)) and c.decide(c.norm(c.norm(n) - c.norm(lo))):
            raise Finding("cl_fix_from_real warns about a value in the range of the format", kind="warn")
        if not w:
            lo, hi = s.bounds(*s.fields(rf))
            n = c.norm(n)
            if not c.decide(c.norm(c.norm(hi) + 1 - n)) or not c.decide(c.norm(c.norm(n) - c.norm(lo))):
                raise Finding("cl_fix_from_real does not warn about an out-of-range value", kind="warn")
    return fn


def vfrom_real_reject(sm):
    def fn(c):
        s = VSess(c)
        rf = s.pfmt("r")
        x = R(c.norm(c.new_input("m", -Expr.pow2(Lin(53)) + 1, Expr.pow2(Lin(53)) - 1).shift(-c.lin(v("p")))))
        try:
            s.call("cl_fix_from_real", [x, rf, s.sat(sm)])
        except VFail:
            return
        raise Finding(f"cl_fix_from_real accepts {sm} although it does not wrap", kind="accept")
    return fn


def vto_real(d=None):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_to_real", [x, a])
        if not isinstance(r, R):
            raise Finding("cl_fix_to_real does not return a real", kind="type")
        s.same(r.e, c.norm(n).shift(-c.lin(v("aF"))), "cl_fix_to_real is not the value of the vector")
    return fn


def vfrom_int(c):
    s = VSess(c)
    rf = s.pfmt("r")
    n = c.new_input("a", Expr.const(-2 ** 31), Expr.const(2 ** 31 - 1))
    lo, hi = s.bounds(*s.fields(rf))
    if not c.decide(c.norm(hi) - n) or not c.decide(c.norm(n) - c.norm(lo)):
        return
    g = s.decode(s.call("cl_fix_from_integer", [DI(c.norm(n)), rf]), rf)
    s.same(g, n, "cl_fix_from_integer changes the integer")


def vto_int(d=None):
    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        x, n = s.data("a", a, *rng_args(c, d))
        r = s.call("cl_fix_to_integer", [x, a])
        s.same(s.I.E(r), n, "cl_fix_to_integer is not the integer of the vector")
    return fn


def ob_c11(tier):
    obs = []
    ks = range(1, 5 if tier == "quick" else 9)
    for nm, Q in with_S(fmt_poly("r", ["p"]), "r"):
        for k in ks:
            for sm in ("Sat_s", "SatWarn_s"):
                obs.append(Ob(f"cl_fix_from_real [{nm}{30*k-29}..{30*k} bits,{sm}]", widths(Q, k), vfrom_real(sm), f"{PKG}.cl_fix_from_real", weight=k * 3))
        obs.append(Ob(f"cl_fix_from_real default mode [{nm}]", widths(Q, 1), vfrom_real("SatWarn_s", True), f"{PKG}.cl_fix_from_real", weight=3))
        for sm in ("None_s", "Warn_s"):
            obs.append(Ob(f"cl_fix_from_real rejects {sm} [{nm}]", widths(Q, 1), vfrom_real_reject(sm), f"{PKG}.cl_fix_from_real"))
    for nm, Q in with_S(fmt_poly("a"), "a"):
        W = v("aS") + v("aI") + v("aF")
        obs.append(Ob(f"cl_fix_to_real [{nm}1..30 bits]", widths(Q, 1, "a"), vto_real(), f"{PKG}.cl_fix_to_real"))
        obs.append(Ob(f"cl_fix_to_real [{nm}31..53 bits]", widths(Q, 2, "a").add(53 - W), vto_real(), f"{PKG}.cl_fix_to_real"))
        # an integer holds 31 magnitude bits
        obs.append(Ob(f"cl_fix_to_integer [{nm}]", Q.add(31 + v("aS") - W), vto_int(), f"{PKG}.cl_fix_to_integer"))
    for nm, Q in with_S(fmt_poly("r"), "r"):
        obs.append(Ob(f"cl_fix_from_integer [{nm}]", Q, vfrom_int, f"{PKG}.cl_fix_from_integer"))
    return obs


# =========================================================================== C22 index ranges and widths
def reject_len(fn_name, which, extra, d="downto"):
    """the operand is not as long as its format says"""
    binary = fn_name in ("cl_fix_add", "cl_fix_sub", "cl_fix_addsub", "cl_fix_mult", "cl_fix_compare")

    def fn(c):
        s = VSess(c)
        a = s.pfmt("a")
        b = s.pfmt("b") if binary else None
        n = c.lin(v("n"))
        if c.lin_eq0(c.lin(n - s.width(b if which else a))):
            return
        bad = s.vec(c.new_input("x", Expr(), Expr.pow2(c.lin(v("n"))) - 1), v("n"), d)
        ok = s.data("ok", a if which else b)[0] if binary else None
        args = ([ok, a, bad, b] if which else [bad, a, ok, b]) if binary else [bad, a]
        args = extra(s, args)
        try:
            s.call(fn_name, args)
        except VFail as e:
            if e.name == "UninitialisedBits":
                raise Finding(f"{fn_name} processes an operand whose length is not the width of its format (undefined bits are used)", kind="accept")
            return
        raise Finding(f"{fn_name} processes an operand whose length is not the width of its format", kind="accept")
    return fn


def ob_c22(tier):
    obs = []
    dirs = ("to", "downto")
    o = ["o"]

    def nonneg(P):
        return P.add(v("o"))
    for d in dirs:
        t = f"{d}, any offset"
        for nm, Q in with_S(nonneg(fmt_poly("a", ["rF"] + o)), "a"):
            for m in ROUND:
                obs.append(Ob(f"cl_fix_round, {t} [{nm}{m}]", Q, vround(m, d), f"{PKG}.cl_fix_round", weight=2))
        Ps = fmt_poly("a", ["rS", "rI"] + o)
        Ps = Ps.add(v("rS")).add(1 - v("rS")).add(v("rI") + v("aF")).add(v("rS") + v("rI") + v("aF") - 1)
        for nm, Q in with_S(nonneg(Ps), "ar"):
            for m in SAT:
                obs.append(Ob(f"cl_fix_saturate, {t} [{nm}{m}]", Q, vsat(m, d), f"{PKG}.cl_fix_saturate"))
        for nm, Q in with_S(nonneg(fmt_poly("ar", o)), "ar"):
            for rm in ROUND:
                obs.append(Ob(f"cl_fix_in_range, {t} [{nm}{rm}]", Q, vinrange(rm, d), f"{PKG}.cl_fix_in_range", weight=3))
            for rm, sm in (("Trunc_s", "None_s"), ("ConvEven_s", "SatWarn_s"), ("SymInf_s", "Sat_s"), ("NonSymPos_s", "Warn_s")):
                obs.append(Ob(f"cl_fix_resize, {t} [{nm}{rm},{sm}]", Q, vresize(rm, sm, d), f"{PKG}.cl_fix_resize"))
        for nm, Q in with_S(nonneg(fmt_poly("ab", o)), "ab"):
            for op in VCMP:
                obs.append(Ob(f"cl_fix_compare('{op}'), {t} [{nm}]", Q, vcompare(op, d), f"{PKG}.cl_fix_compare"))
            for op, ad in (("add", None), ("sub", None), ("mult", None), ("addsub", "1"), ("addsub", "0")):
                obs.append(Ob(f"cl_fix_{op}{ad or ''}, {t} [{nm}]", Q, varith(op, d=d, add=ad), f"{PKG}.cl_fix_{op}"))
        for nm, Q in with_S(nonneg(fmt_poly("abr", o)), "abr"):
            for op, ad in (("add", None), ("sub", None), ("mult", None), ("addsub", "1"), ("addsub", "0")):
                for rm, sm in (("Trunc_s", "None_s"), ("ConvEven_s", "SatWarn_s")):
                    obs.append(Ob(f"cl_fix_{op}{ad or ''}, {t} [{nm}{rm},{sm}]", Q, varith(op, rm, sm, d=d, add=ad), f"{PKG}.cl_fix_{op}"))
        for op in ("neg", "abs", "shift"):
            k = ["n0"] if op == "shift" else []
            for nm, Q in with_S(nonneg(fmt_poly("a", o + k)), "a"):
                obs.append(Ob(f"cl_fix_{op}, {t} [{nm}]", Q, varith(op, d=d), f"{PKG}.cl_fix_{op}"))
            for nm, Q in with_S(nonneg(fmt_poly("ar", o + k)), "ar"):
                for rm, sm in (("Trunc_s", "None_s"), ("ConvEven_s", "SatWarn_s")):
                    obs.append(Ob(f"cl_fix_{op}, {t} [{nm}{rm},{sm}]", Q, varith(op, rm, sm, d=d), f"{PKG}.cl_fix_{op}"))
        for nm, Q in with_S(nonneg(fmt_poly("a", o)), "a"):
            W = v("aS") + v("aI") + v("aF")
            obs.append(Ob(f"cl_fix_sign, {t} [{nm}]", Q, vsign(d), f"{PKG}.cl_fix_sign"))
            obs.append(Ob(f"cl_fix_to_integer, {t} [{nm}]", Q.add(31 + v("aS") - W), vto_int(d), f"{PKG}.cl_fix_to_integer"))
            obs.append(Ob(f"cl_fix_to_real, {t} [{nm}1..30 bits]", widths(Q, 1, "a"), vto_real(d), f"{PKG}.cl_fix_to_real"))
            obs.append(Ob(f"cl_fix_to_real, {t} [{nm}31..53 bits]", widths(Q, 2, "a").add(53 - W), vto_real(d), f"{PKG}.cl_fix_to_real"))
    # operands of the wrong length
    tail = [("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s")]
    for d in dirs:
        for nm, Q in with_S(fmt_poly("a", ["n"]).add(v("n")), "a"):
            W = v("aS") + v("aI") + v("aF")
            one = {
                "cl_fix_sign": lambda s, a: a, "cl_fix_to_integer": lambda s, a: a,
                "cl_fix_neg": lambda s, a: a, "cl_fix_abs": lambda s, a: a,
                "cl_fix_shift": lambda s, a: a + [0, a[1]],
                "cl_fix_in_range": lambda s, a: a + [a[1]],
                "cl_fix_saturate": lambda s, a: a + [a[1]],
                "cl_fix_resize": lambda s, a: a + [a[1]],
                "cl_fix_round": lambda s, a: a + [a[1]],
            }
            for f, ex in one.items():
                obs.append(Ob(f"{f} rejects another length, {d} [{nm}]", Q, reject_len(f, 0, ex, d), f"{PKG}.{f}"))
            obs.append(Ob(f"cl_fix_to_real rejects another length, {d} [{nm}]", widths(Q, 1, "a"), reject_len("cl_fix_to_real", 0, lambda s, a: a, d), f"{PKG}.cl_fix_to_real"))
            for sm in ("None_s", "Sat_s"):
                obs.append(Ob(f"cl_fix_saturate({sm}) rejects another length, {d} [{nm}]", Q,
                              reject_len("cl_fix_saturate", 0, lambda s, a, sm=sm: a + [a[1], s.sat(sm)], d), f"{PKG}.cl_fix_saturate"))
        for nm, Q in with_S(fmt_poly("ab", ["n"]).add(v("n")), "ab"):
            two = {"cl_fix_add": lambda s, a: a, "cl_fix_sub": lambda s, a: a, "cl_fix_mult": lambda s, a: a,
                   "cl_fix_compare": lambda s, a: [vabs.St("<", lit=True)] + a}
            for f, ex in two.items():
                for w in (0, 1):
                    obs.append(Ob(f"{f} rejects another length of operand {'ab'[w]}, {d} [{nm}]", Q, reject_len(f, w, ex, d), f"{PKG}.{f}"))
            for ad in "01":
                for w in (0, 1):
                    obs.append(Ob(f"cl_fix_addsub{ad} rejects another length of operand {'ab'[w]}, {d} [{nm}]", Q,
                                  reject_len("cl_fix_addsub", w, lambda s, a, ad=ad: a + [Bit(ad)], d), f"{PKG}.cl_fix_addsub"))
    return obs


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    from ob import run_all
    sel = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    obs = [o for o in globals()["ob_" + sel]("quick") if pat in o.name]
    import time
    t = time.time()
    rs = run_all(obs, "quick", jobs=int(os.environ.get("J", "4")), verbose=True)
    import collections
    print(collections.Counter(r["verdict"] for r in rs), time.time() - t)


# ------------------------------------------------- the VHDL part of properties that are stated for both languages
def only(ob, kinds, hint):
    """the obligation, judged for findings of the given kinds only (the rest is decided by another property)"""
    fn = ob.fn

    def g(c):
        try:
            return fn(c)
        except Finding as f:
            if f.kind in kinds:
                raise
            raise Undecided(f"another deviation ends the path first (decided by {hint}): {f.msg}")
        except A.PyRaise as e:
            raise Undecided(f"a failure ends the path first (decided by {hint}): {e.msg}")
    return Ob("VHDL " + ob.name, ob.P, g, ob.entry, ob.weight, ob.budget)


def vshift_fmt_reject(c):
    s = VSess(c)
    a = s.pfmt("a")
    try:
        s.call("cl_fix_shift_fmt", [a, v("lo"), v("hi")])
    except VFail:
        return
    raise Finding("cl_fix_shift_fmt accepts min_shift > max_shift", kind="accept")


def ob_v09(tier):
    """comparisons and range queries"""
    return [Ob("VHDL " + o.name, o.P, o.fn, o.entry, o.weight, o.budget) for o in ob_c06(tier) if "compare" in o.name or "in_range" in o.name]


def ob_v14(tier):
    """warnings"""
    W = ("warn",)
    obs = [only(o, W, "C06") for o in ob_c06(tier) if "cl_fix_saturate [" in o.name or "cl_fix_saturate def" in o.name or "cl_fix_resize" in o.name]
    obs += [only(o, W, "C04") for o in ob_c04(tier) if "rejects" not in o.name and "default" not in o.name]
    obs += [only(o, W, "C11") for o in ob_c11("quick") if "cl_fix_from_real [" in o.name or "cl_fix_from_real def" in o.name]
    for o in ob_c08(tier):
        if "default" in o.name or "Trunc_s" in o.name or tier == "thorough":
            obs.append(only(o, W, "C08"))
    return obs


def ob_v15(tier):
    """rejected requests"""
    A = ("accept",)
    obs = [only(o, A, "C04") for o in ob_c04(tier) if "rejects" in o.name]
    obs += [only(o, A, "C06") for o in ob_c06(tier) if "rejects" in o.name]
    obs += [only(o, A, "C11") for o in ob_c11("quick") if "rejects" in o.name]
    for nm, Q in with_S(fmt_poly("a", ["lo", "hi"]), "a"):
        obs.append(Ob(f"VHDL cl_fix_shift_fmt rejects min_shift > max_shift [{nm}]", Q.add(v("lo") - v("hi") - 1), vshift_fmt_reject, f"{PKG}.cl_fix_shift_fmt"))
    return obs
