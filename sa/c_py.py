"""Obligations over the Python model (C01, C03, C05, C07, C09, C10, C12..C16, C24)."""
from pylib import *
from ob import Ob
import ast as _ast

SPECIAL = "special"


# =========================================================================== helpers
def with_S(P, names):
    out = [("", P)]
    for n in names:
        nxt = []
        for nm, Q in out:
            for s in (0, 1):
                nxt.append((nm + f"{n}S{s},", Q.add(v(n + "S") - s).add(s - v(n + "S"))))
        out = nxt
    return out


def width_split(P, n):
    w = v(n + "S") + v(n + "I") + v(n + "F")
    return [("narrow", P.add(NARROW - w)), ("wide", P.add(w - NARROW - 1))]


def no_state(s):
    """no caller-visible state was modified on this path"""
    for e in s.c.events:
        if e[0] == "mutate":
            raise Finding(f"{e[1]} is modified ({e[2]}) at {loc(e[3])}", kind="mutate:" + e[1])
        if e[0] == "state":
            raise Finding(f"{e[1]} is modified ({e[2]}) at {loc(e[3])}", kind="state")


def loc(w):
    return f"{os.path.basename(str(w[0]))}:{w[1]} in {w[2]}"


def no_alias(s, r, what="result"):
    if isinstance(r, A.Arr) and r.buf.tag != "fresh":
        raise Finding(f"{what} shares memory with {r.buf.tag}", kind="alias:" + r.buf.tag)


def warned(s):
    return any(e[0] == "warn" for e in s.c.events)


# =========================================================================== C01 format growth
def exact_range(c, op, fa, fb, sh=None):
    """(min, max) of the exact result and its finest grid exponent (as list of Lin), real domain"""
    def ext(f):
        S, I, F = f
        lo = -Expr.pow2(c.lin(I)) if c.lin_eq0(c.lin(S) - 1) else Expr()
        return lo, Expr.pow2(c.lin(I)) - Expr.pow2(-c.lin(F))
    alo, ahi = ext(fa)
    if fb is not None:
        blo, bhi = ext(fb)

    def pick(xs, low):
        b = xs[0]
        for x in xs[1:]:
            if c.decide_sum(c.norm(x - b)) != low:
                b = x
        return c.norm(b)
    if op == "add":
        return alo + blo, ahi + bhi
    if op == "sub":
        return alo - bhi, ahi - blo
    if op == "neg":
        return -ahi, -alo
    if op == "abs":
        return Expr(), pick([-alo, ahi], False)
    if op == "mult":
        cs = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
        return pick(cs, True), pick(cs, False)
    raise AssertionError(op)


def chk_fmt(s, r, lo, hi, grids, minimal=True, name="", gridmin=True):
    """r contains every multiple of 2^-max(grids) in [lo, hi]; minimal: no field can be reduced."""
    c = s.c
    S, I, F = s.fields(r)
    for g in grids:
        if not c.decide_lin(c.lin(F) - g):
            raise Finding(f"{name}: too few fractional bits", kind="value")
    S = c.lin(S)
    if not (c.lin_eq0(S) or c.lin_eq0(c.lin(S) - 1)):
        raise Finding(f"{name}: S is neither 0 nor 1", kind="value")
    signed = not c.lin_eq0(c.lin(S))
    I, F = c.lin(I), c.lin(F)
    if not c.decide_lin(I + F):
        raise Finding(f"{name}: I+F < 0", kind="value")
    rlo = -Expr.pow2(c.lin(I)) if signed else Expr()
    if not c.decide_sum(c.norm(lo - rlo)):
        raise Finding(f"{name}: minimum result is not representable", kind="value")
    if not c.decide_sum(c.norm(Expr.pow2(c.lin(I)) - Expr.pow2(-c.lin(F)) - hi)):
        raise Finding(f"{name}: maximum result is not representable", kind="value")
    if not minimal:
        return
    if gridmin:
        ok = any(c.lin_eq0(c.lin(F) - g) for g in grids)
        if not ok:
            raise Finding(f"{name}: more fractional bits than needed", kind="minimal")
    if signed and c.decide_sum(c.norm(lo)):
        raise Finding(f"{name}: a sign bit that is never needed", kind="minimal")
    I, F = c.lin(I), c.lin(F)
    if c.decide_lin(I + F - 1):
        i1 = c.lin(I) - 1
        fits = c.decide_sum(c.norm(Expr.pow2(i1) - Expr.pow2(-c.lin(F)) - hi))
        if fits and signed:
            fits = c.decide_sum(c.norm(c.norm(lo) + Expr.pow2(c.lin(i1))))
        if fits:
            raise Finding(f"{name}: more integer bits than needed", kind="minimal")


def chk_ctor(s, r, name):
    if not (isinstance(r, A.Inst) and r.cls.name == "FixFormat"):
        raise Finding(f"{name} returns {r!r}", kind="value")


def c01_bin(op, minimal=True):
    def fn(c):
        s = Sess(c)
        a, b = s.pfmt("a"), s.pfmt("b")
        r = s.call(s.api(f"cl_fix_{op}_fmt"), [a, b])
        chk_ctor(s, r, op)
        lo, hi = exact_range(c, op, s.fields(a), s.fields(b))
        if op == "mult":
            aF, bF = c.lin(v("aF")), c.lin(v("bF"))
            g = [aF + bF]
        else:
            g = [c.lin(v("aF")), c.lin(v("bF"))]
        chk_fmt(s, r, lo, hi, g, minimal, f"cl_fix_{op}_fmt")
        no_state(s)
    return fn


def c01_addsub(c):
    s = Sess(c)
    a, b = s.pfmt("a"), s.pfmt("b")
    r = s.call(s.api("cl_fix_addsub_fmt"), [a, b])
    for op in ("add", "sub"):
        lo, hi = exact_range(c, op, s.fields(a), s.fields(b))
        chk_fmt(s, r, lo, hi, [c.lin(v("aF")), c.lin(v("bF"))], False, "cl_fix_addsub_fmt")
    no_state(s)


def c01_un(op, minimal=True):
    def fn(c):
        s = Sess(c)
        a = s.pfmt("a")
        r = s.call(s.api(f"cl_fix_{op}_fmt"), [a])
        lo, hi = exact_range(c, op, s.fields(a), None)
        chk_fmt(s, r, lo, hi, [c.lin(v("aF"))], minimal, f"cl_fix_{op}_fmt")
        no_state(s)
    return fn


def c01_shift(two):
    def fn(c):
        s = Sess(c)
        a = s.pfmt("a")
        n0, n1 = v("n0"), v("n1")
        if two:
            c.add_lin(n1 - n0)
            r = s.call(s.api("cl_fix_shift_fmt"), [a, c.lin(n0), c.lin(n1)])
        else:
            n1 = n0
            r = s.call(s.api("cl_fix_shift_fmt"), [a, c.lin(n0)])
        S, I, F = s.fields(a)
        lo = -Expr.pow2(c.lin(I + n1)) if c.lin_eq0(c.lin(S) - 1) else Expr()
        hi = Expr.pow2(c.lin(I + n1)) - Expr.pow2(c.lin(n1 - F))
        chk_fmt(s, r, lo, hi, [c.lin(F - n0)], False, "cl_fix_shift_fmt")
        # minimal: exactly I+maxShift integer bits and F-minShift fractional bits
        for got, want, nm in zip(s.fields(r), (S, I + n1, F - n0), "SIF"):
            if not c.lin_eq0(c.lin(got - want)):
                raise Finding(f"cl_fix_shift_fmt: field {nm} is not minimal", kind="minimal")
        no_state(s)
    return fn


def c01_round(mode):
    def fn(c):
        s = Sess(c)
        a = s.pfmt("a")
        S, I, F = s.fields(a)
        R = v("rF")
        r = s.call(s.api("cl_fix_round_fmt"), [a, R, s.rnd(mode)])
        rS, rI, rF = s.fields(r)
        if not c.lin_eq0(c.lin(rF - R)):
            raise Finding("cl_fix_round_fmt: wrong number of fractional bits", kind="value")
        alo, ahi = s.bounds(S, I, F)
        lo = spec_round(c, alo, F - R, mode)       # rounding is monotone: the extremes suffice
        hi = spec_round(c, ahi, F - R, mode)
        lo = c.norm(lo.shift(-c.lin(R)))
        hi = c.norm(hi.shift(-c.lin(R)))
        chk_fmt(s, r, lo, hi, [c.lin(R)], False, f"cl_fix_round_fmt({mode})")
        if c.decide_lin(c.lin(rF - F)):
            # nothing is rounded: no integer bit may be added (beyond keeping the format valid)
            if not c.lin_eq0(c.lin(rI - I)) and not c.lin_eq0(c.lin(rS + rI + rF) - 1):
                raise Finding("cl_fix_round_fmt: integer bits grow without rounding", kind="minimal")
        no_state(s)
    return fn


def c01_union(as_list):
    def fn(c):
        s = Sess(c)
        a, b = s.pfmt("a"), s.pfmt("b")
        args = [A.PyList([a, b])] if as_list else [a, b]
        r = s.call(s.api("cl_fix_union_fmt"), args)
        if r is a or r is b:
            raise Finding("cl_fix_union_fmt returns one of its arguments", kind="alias")
        for f in zip(s.fields(r), s.fields(a), s.fields(b)):
            g, x, y = (c.lin(z) for z in f)
            ok = c.decide_lin(g - x) and c.decide_lin(c.lin(g - y))
            if not ok:
                raise Finding("cl_fix_union_fmt: result does not contain both formats", kind="value")
            if not (c.lin_eq0(c.lin(g - x)) or c.lin_eq0(c.lin(g - y))):
                raise Finding("cl_fix_union_fmt: result is larger than needed", kind="minimal")
        no_state(s)
    return fn


def c01_union_n(n, field, as_tuple=False):
    """collection of n formats which differ in one field"""
    def fn(c):
        s = Sess(c)
        fs = [s.fmt(*[v(f"x{i}") if k == field else Lin(k == "S") for k in "SIF"], tag=f"input:fmts[{i}]") for i in range(n)]
        r = s.call(s.api("cl_fix_union_fmt"), [tuple(fs) if as_tuple else A.PyList(fs)])
        if n > 1 and any(r is f for f in fs):
            raise Finding("cl_fix_union_fmt returns one of its arguments", kind="alias")
        for k, g in zip("SIF", s.fields(r)):
            if k != field:
                if not c.lin_eq0(c.lin(g - int(k == "S"))):
                    raise Finding("cl_fix_union_fmt: field common to all formats changes", kind="value")
                continue
            for i in range(n):
                if not c.decide_lin(c.lin(g - v(f"x{i}"))):
                    raise Finding(f"cl_fix_union_fmt: the result does not contain format {i + 1} of {n}", kind="value")
            if not any(c.lin_eq0(c.lin(g - v(f"x{i}"))) for i in range(n)):
                raise Finding("cl_fix_union_fmt: result is larger than needed", kind="minimal")
        no_state(s)
    P = Poly.top([f"x{i}" for i in range(n)])
    for i in range(n):
        P = P.add(v(f"x{i}")).add((1 if field == "S" else BOUND) - v(f"x{i}"))
    return P, fn


def c01_misc(c):
    s = Sess(c)
    a = s.pfmt("a")
    S, I, F = s.fields(a)
    w = s.call(s.api("cl_fix_width"), [a])
    if not c.lin_eq0(c.lin(Lin.of(w) - (S + I + F))):
        raise Finding("cl_fix_width is not S+I+F", kind="value")
    wd = s.I.truth(s.call(s.api("cl_fix_is_wide"), [a]))
    if wd != c.decide_lin(c.lin(S + I + F) - (NARROW + 1)):
        raise Finding("cl_fix_is_wide: wrong threshold", kind="value")
    wide = wd
    lo, hi = s.bounds(S, I, F)
    for nm, want in (("cl_fix_max_value", hi), ("cl_fix_min_value", lo)):
        r = s.call(s.api(nm), [a])
        got = s.decode(r, S, I, F, wide=wide, what=nm, nd=0)
        s.same(got[0], want, nm)
    no_state(s)


def c01_eq(c):
    s = Sess(c)
    a, b = s.pfmt("a"), s.pfmt("b")
    r = s.I.truth(s.I.compare(_ast.Eq(), a, b))
    want = all(c.lin_eq0(c.lin(x - y)) for x, y in zip(s.fields(a), s.fields(b)))
    if r != want:
        raise Finding("format equality is not field-wise", kind="value")
    w = s.I.getattr(a, "width")
    if not c.lin_eq0(c.lin(Lin.of(w) - sum(s.fields(a), Lin(0)))):
        raise Finding("format width is not S+I+F", kind="value")


def ob_c01(tier):
    P2, P1 = fmt_poly(["a", "b"]), fmt_poly(["a"])
    obs = []
    for op in ("add", "sub", "mult"):
        for nm, Q in with_S(P2, "ab"):
            obs.append(Ob(f"cl_fix_{op}_fmt[{nm}]", Q, c01_bin(op), f"FixFormat.for_{op}"))
    for nm, Q in with_S(P2, "ab"):
        obs.append(Ob(f"cl_fix_addsub_fmt[{nm}]", Q, c01_addsub, "FixFormat.for_addsub"))
    obs.append(Ob("cl_fix_neg_fmt", P1, c01_un("neg", False), "FixFormat.for_neg"))
    obs.append(Ob("cl_fix_abs_fmt", P1, c01_un("abs", False), "FixFormat.for_abs"))
    Ps = fmt_poly(["a"], ["n0", "n1"])
    obs.append(Ob("cl_fix_shift_fmt[min,max]", Ps, c01_shift(True), "FixFormat.for_shift"))
    obs.append(Ob("cl_fix_shift_fmt[n]", Ps, c01_shift(False), "FixFormat.for_shift"))
    Pr = fmt_poly(["a"], ["rF"])
    for m in ROUND:
        obs.append(Ob(f"cl_fix_round_fmt[{m}]", Pr, c01_round(m), "FixFormat.for_round"))
    obs.append(Ob("cl_fix_union_fmt[pair]", P2, c01_union(False), "FixFormat.union"))
    obs.append(Ob("cl_fix_union_fmt[list]", P2, c01_union(True), "FixFormat.union"))
    for n in (1, 3, 4) if tier == "quick" else (1, 3, 4, 5, 6):
        for k in "SIF":
            P, fn = c01_union_n(n, k, n == 3)
            obs.append(Ob(f"cl_fix_union_fmt[{n} formats,{k}]", P, fn, "FixFormat.union"))
    obs.append(Ob("width/is_wide/min/max", P1, c01_misc, "cl_fix_width"))
    obs.append(Ob("format equality and width", P2, c01_eq, "FixFormat.__eq__"))
    return obs


# =========================================================================== C03 rounding
def round_api(mode, form="arr", K=1, prop="value"):
    def fn(c):
        s = Sess(c)
        a_fmt = s.pfmt("a")
        S, I, F = s.fields(a_fmt)
        a, ns = s.data("a", S, I, F, form, K)
        R = v("rF")
        r_fmt = s.call(s.api("cl_fix_round_fmt"), [a_fmt, R, s.rnd(mode)])
        r_fmt.tag = "input:r_fmt"
        r = s.call(s.api("cl_fix_round"), [a, a_fmt, r_fmt, s.rnd(mode)])
        return post(s, prop, r, r_fmt, form, K,
                    lambda g, i: s.same(g, spec_round(c, ns[i], F - R, mode), f"{mode} rounding result"))
    return fn


def post(s, prop, r, r_fmt, form, K, each, warn=False):
    """shared post-condition selector: value / repr / effects"""
    rS, rI, rF = s.fields(r_fmt)
    nd = ndof(form, K)
    if prop == "value":
        got = s.decode(r, rS, rI, rF, K=K, nd=nd, repr_check=False)
        for i, g in enumerate(got):
            each(g, i)
    elif prop == "repr":
        got = s.decode(r, rS, rI, rF, K=K, nd=nd)
        for g in got:
            lo, hi = s.bounds(rS, rI, rF)
            # every element is an integer multiple of the LSB by construction of the integer domain
            fr = s.c.norm(g)
            _ip, f = s.c._split_terms(fr)
            if not f.is_zero():
                z = s.c.floor1(s.c.norm(g))
                s.same(z, g, "result is not on the grid of its format")
    elif prop == "effects":
        no_state(s)
        no_alias(s, r)
        if not warn and warned(s):
            raise Finding("a warning is raised although nothing can saturate", kind="warn")


def post_obj(s, prop, d, r_fmt, form, K, wide):
    """post-conditions of a method result (its data)"""
    if prop == "effects":
        no_state(s)
    elif prop == "repr":
        s.decode(d, *s.fields(r_fmt), K=K, nd=ndof(form, K), wide=wide)


def round_meth(cls, mode, form="arr", K=1, prop="value"):
    def fn(c):
        s = Sess(c)
        a_fmt = s.pfmt("a")
        S, I, F = s.fields(a_fmt)
        wide = cls == "WideFix"
        a, ns = s.data("a", S, I, F, form, K, wide=wide)
        R = v("rF")
        r_fmt = s.call(s.api("cl_fix_round_fmt"), [a_fmt, R, s.rnd(mode)])
        rS, rI, rF = s.fields(r_fmt)
        if not wide and s.is_wide(rS, rI, rF):
            return
        x = s.fix(cls, a, a_fmt)
        r = s.call(s.I.getattr(x, "round"), [r_fmt, s.rnd(mode)])
        d = s.I.getattr(r, "_data")
        if prop != "value":
            if prop == "effects" and warned(s):
                raise Finding(f"{cls}.round warns", kind="warn")
            post_obj(s, prop, d, r_fmt, form, K, wide)
            return
        got = s.decode(d, rS, rI, rF, K=K, wide=wide, repr_check=False)
        for g, n in zip(got, ns):
            s.same(g, spec_round(c, n, F - R, mode), f"{cls}.round {mode} result")
    return fn


def ob_c03(tier):
    P = fmt_poly(["a"], ["rF"])
    obs = []
    for mode in ROUND:
        for ns, Q0 in with_S(P, "a"):
            for nw, Q in width_split(Q0, "a"):
                obs.append(Ob(f"cl_fix_round[{mode},{ns}{nw}]", Q, round_api(mode), "en_cl_fix.cl_fix_round"))
                obs.append(Ob(f"cl_fix_round[{mode},{ns}{nw},scalar]", Q, round_api(mode, "sc"), "en_cl_fix.cl_fix_round"))
            obs.append(Ob(f"WideFix.round[{mode},{ns}]", Q0, round_meth("WideFix", mode), "WideFix.round"))
            obs.append(Ob(f"NarrowFix.round[{mode},{ns}]", width_split(Q0, "a")[0][1], round_meth("NarrowFix", mode), "NarrowFix.round"))
    # two-element arrays: no cross-talk between elements
    for mode in ROUND:
        for nw, Q in width_split(P, "a"):
            obs.append(Ob(f"cl_fix_round[{mode},{nw},2 elements]", Q, round_api(mode, K=2), "en_cl_fix.cl_fix_round", weight=9))
    return obs


# =========================================================================== C05 saturation
def sat_poly():
    """a format (a) and result fields rS, rI with the same F"""
    P = Poly.top(["aS", "aI", "aF", "rS", "rI"])
    for S, I in (("aS", "aI"), ("rS", "rI")):
        P = P.add(v(S)).add(1 - v(S)).add(v(I) + v("aF")).add(v(S) + v(I) + v("aF") - 1)
        P = P.add(v(I) + BOUND).add(BOUND - v(I))
    return P.add(v("aF") + BOUND).add(BOUND - v("aF"))


def sat_api(mode, form="arr", K=1, prop="value", obj=None):
    def fn(c):
        s = Sess(c)
        a_fmt = s.pfmt("a")
        S, I, F = s.fields(a_fmt)
        wide = None if obj is None else obj == "WideFix"
        a, ns = s.data("a", S, I, F, form, K, wide=wide)
        r_fmt = s.fmt(v("rS"), v("rI"), v("aF"), tag="input:r_fmt")
        if obj is None:
            r = s.call(s.api("cl_fix_saturate"), [a, a_fmt, r_fmt, s.sat(mode)])
        else:
            x = s.fix(obj, a, a_fmt)
            rr = s.call(s.I.getattr(x, "saturate"), [r_fmt, s.sat(mode)])
            r = s.I.getattr(rr, "_data")
        rS, rI, rF = s.fields(r_fmt)

        def each(g, i):
            lo, hi = s.bounds(rS, rI, rF)
            s.same(g, spec_sat(c, ns[i], lo, hi, mode, c.lin(rS + rI + rF)), f"{mode} result")
        if prop == "warn":
            w = warned(s)
            lo, hi = s.bounds(rS, rI, rF)
            out = False
            if mode in ("Warn_s", "SatWarn_s"):
                for n in ns:
                    if not c.decide(c.norm(hi - n)) or not c.decide(c.norm(n - c.norm(lo))):
                        out = True
                        break
            if w != out:
                raise Finding("warning although every value is in range" if w else "no warning although a value is out of range", kind="warn")
            return
        if obj is not None and prop == "value":
            got = s.decode(r, rS, rI, rF, K=K, wide=wide, repr_check=False)
            for i, g in enumerate(got):
                each(g, i)
            return
        if obj is not None:
            post_obj(s, prop, r, r_fmt, form, K, wide)
            return
        post(s, prop, r, r_fmt, form, K, each, warn=True)
    return fn


def resize_api(rm, sm, form="arr", K=1, prop="value"):
    """cl_fix_resize = round to r_fmt.F, then saturate / wrap"""
    def fn(c):
        s = Sess(c)
        a_fmt, r_fmt = s.pfmt("a"), s.pfmt("r")
        S, I, F = s.fields(a_fmt)
        a, ns = s.data("a", S, I, F, form, K)
        r = s.call(s.api("cl_fix_resize"), [a, a_fmt, r_fmt, s.rnd(rm), s.sat(sm)])
        rS, rI, rF = s.fields(r_fmt)

        def each(g, i):
            m = spec_round(c, ns[i], F - rF, rm)
            lo, hi = s.bounds(rS, rI, rF)
            s.same(g, spec_sat(c, m, lo, hi, sm, c.lin(rS + rI + rF)), f"resize({rm},{sm}) result")
        post(s, prop, r, r_fmt, form, K, each, warn=True)
    return fn


def resize_meth(cls, rm, sm, form="arr", prop="value"):
    def fn(c):
        s = Sess(c)
        af, rf = s.pfmt("a"), s.pfmt("r")
        wide = cls == "WideFix"
        a, ns = s.data("a", *s.fields(af), form=form, wide=wide)
        if not wide and (s.is_wide(*s.fields(rf)) or
                         s.is_wide(*s.fields(s.call(s.api("cl_fix_round_fmt"), [af, s.fields(rf)[2], s.rnd(rm)])))):
            return
        x = s.fix(cls, a, af)
        rr = s.call(s.I.getattr(x, "resize"), [rf, s.rnd(rm), s.sat(sm)])
        post_obj(s, prop, s.I.getattr(rr, "_data"), rf, form, 1, wide)
    return fn


def ob_c05(tier):
    obs = []
    P = sat_poly()
    for mode in SAT:
        for ns, Q0 in with_S(P, "a"):
            for s in (0, 1):
                Q1 = Q0.add(v("rS") - s).add(s - v("rS"))
                for nw, Q in width_split(Q1, "a"):
                    obs.append(Ob(f"cl_fix_saturate[{mode},{ns}rS{s},{nw}]", Q, sat_api(mode), "en_cl_fix.cl_fix_saturate"))
                    obs.append(Ob(f"cl_fix_saturate[{mode},{ns}rS{s},{nw},scalar]", Q, sat_api(mode, "sc"), "en_cl_fix.cl_fix_saturate"))
                obs.append(Ob(f"WideFix.saturate[{mode},{ns}rS{s}]", Q1, sat_api(mode, obj="WideFix"), "WideFix.saturate"))
                wr = v("rS") + v("rI") + v("aF")
                obs.append(Ob(f"NarrowFix.saturate[{mode},{ns}rS{s}]", width_split(Q1, "a")[0][1].add(NARROW - wr),
                              sat_api(mode, obj="NarrowFix"), "NarrowFix.saturate"))
        for nw, Q in width_split(P, "a"):
            obs.append(Ob(f"cl_fix_saturate[{mode},{nw},2 elements]", Q, sat_api(mode, K=2), "en_cl_fix.cl_fix_saturate", weight=9))
    return obs


PAIRS = [("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s"), ("NonSymNeg_s", "Warn_s"), ("SymInf_s", "SatWarn_s"),
         ("SymZero_s", "None_s"), ("ConvEven_s", "Sat_s"), ("ConvOdd_s", "Warn_s")]


def ob_c06r(tier):
    obs = []
    P = fmt_poly(["a", "r"])
    for rm, sm in PAIRS:
        for ns, Q0 in with_S(P, "ar"):
            for nw, Q in width_split(Q0, "a"):
                obs.append(Ob(f"cl_fix_resize[{rm},{sm},{ns}{nw}]", Q, resize_api(rm, sm), "en_cl_fix.cl_fix_resize", weight=3))
    return obs


if __name__ == "__main__":
    import sys
    from ob import run_all
    import collections
    g = globals()["ob_" + sys.argv[1]]
    obs = [o for o in g("quick") if len(sys.argv) < 3 or sys.argv[2] in o.name]
    t = __import__("time").time()
    rs = run_all(obs, "quick", jobs=1 if len(sys.argv) > 3 else 8)
    for r in sorted(rs, key=lambda r: -r["wall"])[:6]:
        from ob import print_res
        print_res(r)
    print("----")
    for r in rs:
        if r["verdict"] != "proved":
            print_res(r)
    print(collections.Counter(r["verdict"] for r in rs), sum(r["paths"] for r in rs), round(__import__("time").time() - t, 1))
