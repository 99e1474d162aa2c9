"""C09 comparisons, C10 conversions, C16 packing, C24 generators, C15 rejected requests."""
from c_py import *
import ast as _ast
import ast
import itertools
from pynp import SKEWED
from summ import *
from c_arith import cells, narrow_if, modes, arith, shift_ob, modes

OPS = {"__eq__": _ast.Eq, "__ne__": _ast.NotEq, "__lt__": _ast.Lt, "__le__": _ast.LtE, "__gt__": _ast.Gt, "__ge__": _ast.GtE}


# =========================================================================== C09
def cmp_ob(cls, op, form="arr"):
    def fn(c):
        s = Sess(c)
        af, bf = s.pfmt("a"), s.pfmt("b")
        wide = cls == "WideFix"
        a, na = s.data("a", *s.fields(af), form=form, wide=wide)
        b, nb = s.data("b", *s.fields(bf), form=form, wide=wide)
        x, y = s.fix(cls, a, af), s.fix(cls, b, bf)
        s.I.phase = "run"
        r = s.I.compare(OPS[op](), x, y)
        got = s.bools(r)[0]
        no_state(s)
        d = c.norm(c.norm(na[0]).shift(-c.lin(v("aF"))) - c.norm(nb[0]).shift(-c.lin(v("bF"))))
        if op in ("__eq__", "__ne__"):
            want = c.eq0(d) == (op == "__eq__")
        elif op == "__ge__":
            want = c.decide(d)
        elif op == "__lt__":
            want = not c.decide(d)
        elif op == "__le__":
            want = c.decide(c.norm(-d))
        else:
            want = not c.decide(c.norm(-d))
        if got != want:
            raise Finding(f"{cls}.{op} is {got} although the values compare {want}", kind="cmp")
    return fn


def in_range_ob(cls=None, form="arr", K=1, prop="value"):
    def fn(c):
        s = summ_sess(c)
        af, rf = s.pfmt("a"), s.pfmt("r")
        wide = None if cls is None else cls == "WideFix"
        a, na = s.data("a", *s.fields(af), form=form, K=K, wide=wide)
        rm = any_member(s, "FixRound", "rnd")
        mid = s.call(s.api("cl_fix_round_fmt"), [af, s.fields(rf)[2], rm])
        if cls == "NarrowFix":
            if s.is_wide(*s.fields(rf)) or s.is_wide(*s.fields(mid)):
                return
        if cls is None:
            r = s.call(s.api("cl_fix_in_range"), [a, af, rf, rm])
        else:
            r = s.call(s.I.getattr(s.fix(cls, a, af), "in_range"), [rf, rm])
        if prop == "effects":
            no_state(s)
            if warned(s):
                raise Finding("a range query raises a warning", kind="warn")
            return
        got = s.bools(r)
        if prop == "repr":
            if (A.dims(r) if isinstance(r, A.Arr) else ()) != dimsof(form, K):
                raise Finding("range query: wrong result shape", kind="shape")
            return
        for g, n in zip(got, na):
            lo, hi = s.bounds(*s.fields(mid))
            m = uf_round(c, n, v("aF"), s.fields(rf)[2], mkey(rm), lo, hi)
            lo, hi = s.bounds(*s.fields(rf))
            want = c.decide(c.norm(c.norm(hi) - c.norm(m))) and c.decide(c.norm(c.norm(m) - c.norm(lo)))
            if g != want:
                raise Finding(f"in_range is {g} although the rounded value {'is' if want else 'is not'} representable", kind="cmp")
    return fn


def ob_c09(tier):
    obs = []
    P2, Pr = fmt_poly(["a", "b"]), fmt_poly(["a", "r"])
    for op in OPS:
        for nm, Q in cells(P2, "ab", ""):
            obs.append(Ob(f"WideFix.{op}[{nm}]", Q, cmp_ob("WideFix", op), f"WideFix.{op}"))
            obs.append(Ob(f"NarrowFix.{op}[{nm}]", narrow_if("NarrowFix", Q, "ab"), cmp_ob("NarrowFix", op), f"NarrowFix.{op}"))
    for nm, Q in cells(Pr, "ar", "a"):
        obs.append(Ob(f"cl_fix_in_range[any rounding,{nm}]", Q, in_range_ob(), "en_cl_fix.cl_fix_in_range", weight=2))
        obs.append(Ob(f"cl_fix_in_range[any rounding,{nm}scalar]", Q, in_range_ob(form="sc"), "en_cl_fix.cl_fix_in_range", weight=2))
    for nm, Q in cells(Pr, "ar", ""):
        obs.append(Ob(f"NarrowFix.in_range[any rounding,{nm}]", narrow_if("NarrowFix", Q, "a"), in_range_ob("NarrowFix"), "NarrowFix.in_range"))
    for nw, Q in width_split(Pr, "a"):
        obs.append(Ob(f"cl_fix_in_range[any rounding,{nw},2 elements]", Q, in_range_ob(K=2), "en_cl_fix.cl_fix_in_range", weight=6))
    return obs


# =========================================================================== C10 conversions
def real_poly(names, extra=()):
    """p: exponent of the real input  x = m * 2^-p, |m| < 2^53"""
    return fmt_poly(names, list(extra) + ["p"])


def real_in(s, form, K, p, name="m"):
    c = s.c
    lim = Expr.pow2(Lin(53)) - 1
    ms = [c.new_input(f"{name}{i}" if K > 1 else name, -lim, lim) for i in range(K)]
    es = [c.norm(m.shift(-c.lin(p))) for m in ms]
    if form == "sc":
        return A.Sc("float", es[0]), ms
    if form == "npsc":
        return A.Sc("f8", es[0]), ms
    if form == "list":
        return A.PyList([A.Sc("float", e) for e in es]), ms
    return A.Arr(es, "f8", ndof(form, K), tag="input:a"), ms


def from_real(form="arr", K=1, cls=None, sm="Sat_s", prop="value"):
    def fn(c):
        s = Sess(c)
        rf = s.pfmt("r")
        if cls == "NarrowFix" and s.is_wide(*s.fields(rf)):
            return
        a, ms = real_in(s, form, K, v("p"))
        sat = [s.sat(sm)] if sm else []
        if cls is None:
            r = s.call(s.api("cl_fix_from_real"), [a, rf] + sat)
        else:
            r = s.call(s.I.getattr(s.cls(cls), "from_real"), [a, rf] + sat)
            r = s.I.getattr(r, "_data")
        rS, rI, rF = s.fields(rf)

        def want(i):
            n = c.norm(c.norm(ms[i]).shift(c.lin(c.lin(rF) - c.lin(v("p")))))
            q = c.floor1(n)
            d = c.norm(c.norm(n) - c.norm(q) - Expr.const(Fraction(1, 2)))
            if c.decide(d):
                q = c.norm(q) + 1
            return c.norm(q)

        def each(g, i):
            q = want(i)
            lo, hi = s.bounds(*s.fields(rf))
            s.same(g, spec_sat(c, q, lo, hi, "Sat_s", None), "from_real: not the nearest representable value (half-up, saturated)")
        if prop == "warn":
            w = warned(s)
            lo, hi = s.bounds(*s.fields(rf))
            if sm == "Sat_s":
                if w:
                    raise Finding("from_real warns although warnings are not requested", kind="warn")
                return
            if w:
                # justified only if some input lies outside the representable range
                if all(c.decide(c.norm(c.norm(hi).shift(-c.lin(rF)) - c.norm(ms[i]).shift(-c.lin(v("p"))))) and
                       c.decide(c.norm(c.norm(ms[i]).shift(-c.lin(v("p"))) - c.norm(lo).shift(-c.lin(rF)))) for i in range(K)):
                    raise Finding("from_real warns although every value is in range", kind="warn")
            else:
                for i in range(K):
                    q = want(i)
                    if not c.decide(c.norm(c.norm(hi) - c.norm(q))) or not c.decide(c.norm(c.norm(q) - c.norm(lo))):
                        raise Finding("from_real saturates a value without warning", kind="warn")
            return
        if cls is not None and prop == "value":
            wide = cls == "WideFix"
            for i, g in enumerate(s.decode(r, rS, rI, rF, K=K, wide=wide, repr_check=False)):
                each(g, i)
            return
        post(s, prop, r, rf, form, K, each, warn=True)
    return fn


def from_integer(form="arr", K=1, prop="value", dtype="i8"):
    """out of range integers must be rejected, all others converted exactly"""
    def fn(c):
        s = Sess(c)
        rf = s.pfmt("r")
        rS, rI, rF = s.fields(rf)
        wide = s.is_wide(rS, rI, rF)
        if dtype == "i8":
            lim = Expr.pow2(Lin(53))
            lo0, hi0 = -lim, lim
        else:
            w = c.lin(v("w"))
            lo0, hi0 = -Expr.pow2(w), Expr.pow2(w)
        ns = [c.new_input(f"n{i}" if K > 1 else "n", lo0, hi0) for i in range(K)]
        if form == "sc":
            a = s.I.mk("int", ns[0])
        elif dtype == "i8":
            a = A.Arr(ns, "i8", ndof(form, K), tag="input:a")
        else:
            a = A.Arr([s.I.mk("int", n) for n in ns], "O", ndof(form, K), tag="input:a")
        raised = None
        try:
            r = s.call(s.api("cl_fix_from_integer"), [a, rf])
        except A.PyRaise as e:
            raised = e
        bad = False
        for n in ns:
            lo, hi = s.bounds(*s.fields(rf))
            if not c.decide(c.norm(c.norm(hi) - c.norm(n))) or not c.decide(c.norm(c.norm(n) - c.norm(lo))):
                bad = True
                break
        if prop == "value" and bad:
            return
        if prop == "reject":
            if bad and raised is None:
                raise Finding("cl_fix_from_integer accepts a value outside of the format", kind="accept")
            return
        if raised is not None:
            if bad:
                return
            raise raised
        if bad:
            return
        post(s, prop, r, rf, form, K, lambda g, i: s.same(g, ns[i], "cl_fix_from_integer: wrong value"))
    return fn


def to_integer(form="arr", K=1, prop="value"):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        a, ns = s.data("a", *s.fields(af), form=form, K=K)
        r = s.call(s.api("cl_fix_to_integer"), [a, af])
        if prop == "effects":
            no_state(s)
            no_alias(s, r)
            if warned(s):
                raise Finding("cl_fix_to_integer warns", kind="warn")
            return
        if isinstance(r, A.Arr):
            els = [s.I.el_scalar(r, i) for i in range(len(r.els))]
        else:
            els = [r]
        if prop == "repr":
            nd = A.dims(r) if isinstance(r, A.Arr) else ()
            if nd != dimsof(form, K):
                raise Finding("cl_fix_to_integer: wrong shape", kind="shape")
            for x in els:
                if s.I.num(x)[0] in ("float", "f8"):
                    raise Finding("cl_fix_to_integer: result is not of an integer type", kind="repr")
            return
        for x, n in zip(els, ns):
            s.same(s.I.num(x)[1], n, "cl_fix_to_integer: wrong integer")
    return fn


def to_real(form="arr", K=1, prop="value", cls=None):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        S, I_, F = s.fields(af)
        wide = None if cls is None else True
        # claim restricted to values a double represents exactly
        if c.decide_lin(S + I_ + F - (NARROW + 1)):
            lim = Expr.pow2(Lin(53)) - 1
            lo, hi = s.bounds(S, I_, F)
            lo = -lim if not c.norm(lo).is_zero() else lo
            ns = [c.new_input(f"n{i}" if K > 1 else "n", lo, lim) for i in range(K)]
            els = [s.I.mk("int", n) for n in ns]
            a = els[0] if form == "sc" else A.Arr(els, "O", ndof(form, K), tag="input:a")
        else:
            a, ns = s.data("a", S, I_, F, form=form, K=K, wide=wide)
        if cls is None:
            r = s.call(s.api("cl_fix_to_real"), [a, af])
        else:
            r = s.call(s.I.getattr(s.fix("WideFix", a, af), "to_real"), [])
        if prop == "effects":
            no_state(s)
            no_alias(s, r)
            return
        els = [s.I.el_scalar(r, i) for i in range(len(r.els))] if isinstance(r, A.Arr) else [r]
        if prop == "repr":
            nd = A.dims(r) if isinstance(r, A.Arr) else ()
            if nd != dimsof(form, K):
                raise Finding("cl_fix_to_real: wrong shape", kind="shape")
            for x in els:
                if s.I.num(x)[0] not in ("float", "f8"):
                    raise Finding("cl_fix_to_real: result is not a float", kind="repr")
            return
        for x, n in zip(els, ns):
            s.same(s.I.num(x)[1], c.norm(n).shift(-c.lin(v("aF"))), "cl_fix_to_real: wrong value")
    return fn


def from_narrow(form="arr", K=1):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        a, ns = s.data("a", *s.fields(af), form=form, K=K, wide=False)
        x = s.fix("NarrowFix", a, af)
        s.cls("WideFix")
        r = s.call(s.I.getattr(s.cls("WideFix"), "from_narrowfix"), [x])
        d = s.I.getattr(r, "_data")
        for g, n in zip(s.decode(d, *s.fields(af), wide=True, K=K, repr_check=False), ns):
            s.same(g, n, "WideFix.from_narrowfix: wrong value")
        for p, q in zip(s.fields(s.I.getattr(r, "_fmt")), s.fields(af)):
            if not c.lin_eq0(c.lin(p - q)):
                raise Finding("WideFix.from_narrowfix: format changed", kind="fmt")
    return fn


def ob_c10(tier):
    obs = []
    Pp = real_poly(["r"])
    Pa, Pr, Prw = fmt_poly(["a"]), fmt_poly(["r"]), fmt_poly(["r"], ["w"]).add(v("w"))
    for ns, Q0 in with_S(Pp, "r"):
        for nw, Q in width_split(Q0, "r"):
            for form in ("arr", "sc", "zd", "npsc", "list"):
                obs.append(Ob(f"cl_fix_from_real[{ns}{nw},{form}]", Q, from_real(form), "en_cl_fix.cl_fix_from_real"))
            obs.append(Ob(f"cl_fix_from_real[{ns}{nw},default mode]", Q, from_real("arr", sm=None), "en_cl_fix.cl_fix_from_real"))
            obs.append(Ob(f"cl_fix_from_real[{ns}{nw},2 elements]", Q, from_real("arr", K=2), "en_cl_fix.cl_fix_from_real", weight=3))
        for cls in ("NarrowFix", "WideFix"):
            obs.append(Ob(f"{cls}.from_real[{ns}]", Q0, from_real("arr", cls=cls), f"{cls}.from_real"))
    for ns, Q0 in with_S(Pr, "r"):
        for nw, Q in width_split(Q0, "r"):
            for form in ("arr", "sc", "zd"):
                obs.append(Ob(f"cl_fix_from_integer[{ns}{nw},{form},int64]", Q, from_integer(form), "en_cl_fix.cl_fix_from_integer"))
            obs.append(Ob(f"cl_fix_from_integer[{ns}{nw},2 elements]", Q, from_integer("arr", K=2), "en_cl_fix.cl_fix_from_integer"))
    for ns, Q0 in with_S(Prw, "r"):
        for form in ("arr", "sc", "zd"):
            obs.append(Ob(f"cl_fix_from_integer[{ns}wide,{form},int]", width_split(Q0, "r")[1][1], from_integer(form, dtype="O"), "en_cl_fix.cl_fix_from_integer"))
    for ns, Q0 in with_S(Pa, "a"):
        for nw, Q in width_split(Q0, "a"):
            for form in ("arr", "sc", "zd"):
                obs.append(Ob(f"cl_fix_to_integer[{ns}{nw},{form}]", Q, to_integer(form), "en_cl_fix.cl_fix_to_integer"))
                obs.append(Ob(f"cl_fix_to_real[{ns}{nw},{form}]", Q, to_real(form), "en_cl_fix.cl_fix_to_real"))
        obs.append(Ob(f"WideFix.to_real[{ns}]", Q0, to_real("arr", cls="WideFix"), "WideFix.to_real"))
        for form in ("arr", "zd"):
            obs.append(Ob(f"WideFix.from_narrowfix[{ns}{form}]", width_split(Q0, "a")[0][1], from_narrow(form), "WideFix.from_narrowfix"))
    for nw, Q in width_split(Pa, "a"):
        obs.append(Ob(f"cl_fix_to_integer[{nw},2 elements]", Q, to_integer(K=2), "en_cl_fix.cl_fix_to_integer"))
        obs.append(Ob(f"cl_fix_to_real[{nw},2 elements]", Q, to_real(K=2), "en_cl_fix.cl_fix_to_real"))
    return obs


# =========================================================================== C16 uint64 packing
MAXPACK = 320


def chunk(c, u, i):
    q = c.floor_div(c.norm(u), Lin(64 * i)) if i else c.norm(u)
    return c.mod_pow2(c.norm(q), Lin(64))


def nchunks(s, S, I_, F):
    c = s.c
    n = 1
    while not c.decide_lin(64 * n - (S + I_ + F)):
        n += 1
        S, I_, F = c.lin(S), c.lin(I_), c.lin(F)
        if n > 20:
            raise Undecided("width")
    return n


def unsigned(s, n, S, I_, F):
    """two's complement bit pattern as an unsigned integer"""
    c = s.c
    if c.decide(c.norm(n)):
        return c.norm(n)
    return c.norm(c.norm(n) + Expr.pow2(c.lin(S + I_ + F)))


def get_mod_fn(s, fname):
    m = s.mod("matlab_interface")
    if fname not in m.ns:
        raise Missing(f"{fname} not found in matlab_interface.py")
    return m.ns[fname]


def pack_to(which, form="arr", K=1, prop="value"):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        f0 = get_mod_fn(s, "to_uint64_array") if which == "matlab" else None
        a, ns = s.data("a", *s.fields(af), form=form, K=K, wide=True)
        x = None
        if which == "matlab":
            r = s.call(f0, [a, af])
        else:
            x = s.fix("WideFix", a, af)
            if prop == "effects" and isinstance(x.attrs.get("_data"), A.Arr):
                x.attrs["_data"].buf.tag = "input:self"
            r = s.call(s.I.getattr(x, "to_uint64_array"), [])
        if prop == "effects":
            no_state(s)
            no_alias(s, r)
            return
        if not isinstance(r, A.Arr) or r.dtype != "u8":
            raise Finding(f"packed data is {r!r}", kind="repr")
        n = nchunks(s, *s.fields(af))
        d = dimsof(form, K)
        d = d + (n,) if which == "matlab" and d else (1, n) if which == "matlab" else (n,) + d
        if A.dims(r) != d:
            raise Finding(f"packed data has shape {A.dims(r)}, expected {d}", kind="shape")
        if any(x is None for x in r.els):
            raise Finding("uninitialised packed data", kind="value")
        us = [unsigned(s, x_, *s.fields(af)) for x_ in ns]
        for i in range(n):
            for k, u in enumerate(us):
                s.same(r.els[k * n + i if which == "matlab" else i * K + k], chunk(c, u, i),
                       f"uint64 number {i} of the packed value is wrong")
    return fn


def pack_from(which, K=1, prop="value", form="arr"):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        f = get_mod_fn(s, "from_uint64_array") if which == "matlab" else s.I.getattr(s.cls("WideFix"), "from_uint64_array")
        lo, hi = s.bounds(*s.fields(af))
        ns = [c.new_input(f"a{i}" if K > 1 else "a", lo, hi) for i in range(K)]
        n = nchunks(s, *s.fields(af))
        us = [unsigned(s, x, *s.fields(af)) for x in ns]
        d = dimsof(form, K)
        if which == "matlab":
            els, d = [chunk(c, u, i) for u in us for i in range(n)], d + (n,)
        else:
            els, d = [chunk(c, u, i) for i in range(n) for u in us], (n,) + d
        st = A.Arr([c.norm(e) for e in els], "u8", A.mknd(d), tag="input:data")
        r = s.call(f, [st, af])
        if which != "matlab":
            r = s.I.getattr(r, "_data")
        if prop == "effects":
            no_state(s)
            no_alias(s, r)
            return
        for g, x in zip(s.decode(r, *s.fields(af), wide=True, K=K, nd=ndof(form, K), repr_check=True), ns):
            s.same(g, x, "unpacked value differs from the packed one")
    return fn


def ob_c16(tier):
    mx = MAXPACK if tier == "quick" else 640
    P = fmt_poly(["a"])
    P = P.add(Lin(mx) - v("aS") - v("aI") - v("aF"))
    Pw = width_split(P, "a")[1][1]
    obs = []
    for ns, Q in with_S(Pw, "a"):
        obs.append(Ob(f"matlab to_uint64_array[{ns}]", Q, pack_to("matlab"), "matlab_interface.to_uint64_array"))
        obs.append(Ob(f"matlab to_uint64_array[{ns}scalar]", Q, pack_to("matlab", "sc"), "matlab_interface.to_uint64_array"))
        obs.append(Ob(f"matlab to_uint64_array[{ns}0-d]", Q, pack_to("matlab", "zd"), "matlab_interface.to_uint64_array"))
        obs.append(Ob(f"matlab to_uint64_array[{ns}2 elements]", Q, pack_to("matlab", K=2), "matlab_interface.to_uint64_array", weight=4))
        for form in ("row", "col"):
            t = f"{ns}shape {dimsof(form, 2)}"
            obs.append(Ob(f"matlab to_uint64_array[{t}]", Q, pack_to("matlab", form, K=2), "matlab_interface.to_uint64_array", weight=4))
            obs.append(Ob(f"matlab from_uint64_array[{t}]", Q, pack_from("matlab", 2, form=form), "matlab_interface.from_uint64_array", weight=4))
        obs.append(Ob(f"matlab from_uint64_array[{ns}]", Q, pack_from("matlab"), "matlab_interface.from_uint64_array"))
        obs.append(Ob(f"matlab from_uint64_array[{ns}2 elements]", Q, pack_from("matlab", 2), "matlab_interface.from_uint64_array", weight=4))
    for ns, Q in with_S(P, "a"):
        obs.append(Ob(f"WideFix.to_uint64_array[{ns}]", Q, pack_to("WideFix"), "WideFix.to_uint64_array"))
        obs.append(Ob(f"WideFix.to_uint64_array[{ns}2 elements]", Q, pack_to("WideFix", K=2), "WideFix.to_uint64_array", weight=4))
        obs.append(Ob(f"WideFix.from_uint64_array[{ns}]", Q, pack_from("WideFix"), "WideFix.from_uint64_array"))
        obs.append(Ob(f"WideFix.from_uint64_array[{ns}2 elements]", Q, pack_from("WideFix", 2), "WideFix.from_uint64_array", weight=4))
    return obs


# =========================================================================== C24 generators
def zeros_ob(shape, K):
    def fn(c):
        s = Sess(c)
        rf = s.pfmt("r")
        r = s.call(s.api("cl_fix_zeros"), [shape, rf])
        for g in s.decode(r, *s.fields(rf), K=K, nd=A.mknd((shape,) if isinstance(shape, int) else shape)):
            s.same(g, Expr(), "cl_fix_zeros: not zero")
        if warned(s):
            raise Finding("cl_fix_zeros warns", kind="warn")
        no_state(s)
    return fn


def restricted(c):
    for v_, lo, hi in getattr(c, "rands", []):
        if v_ is None:
            return True
        e = c.norm(Expr.var(v_))
        for want, low in ((lo, True), (hi, False)):
            if not all(c.norm(c.norm(x) - c.norm(want)).is_zero() for x in c._corners(e, low)):
                return True
    return False


def random_ob(shape, K, prop=None):
    def fn(c):
        s = Sess(c)
        rf = s.pfmt("r")
        r = s.call(s.api("cl_fix_random"), [shape, rf])
        for g in s.decode(r, *s.fields(rf), K=K, nd=A.mknd((shape,) if isinstance(shape, int) else shape)):
            lo, hi = s.bounds(*s.fields(rf))
            if prop == "repr":
                s.same(c.floor1(c.norm(g)), c.norm(g), "cl_fix_random: value is not on the grid of the format")
                continue
            s.ge(c.norm(hi) - c.norm(g), "cl_fix_random: value above the format")
            s.ge(c.norm(g) - c.norm(lo), "cl_fix_random: value below the format")
            ip, fr = c._split_terms(c.norm(g))
            if not fr.is_zero():
                s.same(c.floor1(c.norm(g)), c.norm(g), "cl_fix_random: value is not on the grid of the format")
            # the whole range is reachable (judged only where no branch restricts the drawn numbers)
            if restricted(c):
                c.soft = "the drawn number is restricted by a branch: reachability of the extremes is not judged"
                continue
            mx = [c.norm(x) for x in c._corners(c.norm(g), False)]
            mn = [c.norm(x) for x in c._corners(c.norm(g), True)]
            for m_, b, nm in ((mx, hi, "maximum"), (mn, lo, "minimum")):
                for x in m_:
                    s.same(x, c.norm(b), f"cl_fix_random: the {nm} of the format cannot be generated")
        no_state_random(s)
    return fn


def uniform_ob(shape, K):
    """every element is a one-to-one image of its own uniformly drawn integer"""
    def fn(c):
        s = Sess(c)
        rf = s.pfmt("r")
        try:
            r = s.call(s.api("cl_fix_random"), [shape, rf])
            gs = s.decode(r, *s.fields(rf), K=K, nd=A.mknd(shape) if isinstance(shape, tuple) else 1)
        except Undecided:
            odd = [x[2] for x in getattr(c, "rands", []) if x[1] == "skewed"] or skewed_calls("cl_fix_random")
            if odd:
                raise Finding(f"cl_fix_random: the distribution of {odd[0]}() is not uniform", kind="dist")
            raise
        used = []
        odd = [x for x in getattr(c, "rands", []) if x[0] is None]
        draws = {x[0]: (x[1], x[2]) for x in getattr(c, "rands", []) if x[0] is not None}
        if len(draws) == len(gs) and not odd:
            # each element is some function of one draw (two elements that share one are found below): every value must be
            # the image of equally many of the n drawn numbers, so n is a multiple of the number of values
            lo, hi = s.bounds(*s.fields(rf))
            size = c.norm(c.norm(hi) - c.norm(lo)) + 1
            for a, b in draws.values():
                n = c.norm(c.norm(b) - c.norm(a)) + 1
                s.ge(c.norm(n - size), "cl_fix_random: fewer numbers can be drawn than the format has values")
                if c.decide(c.norm(n - size - 1)) and c.decide(c.norm(size * 2 - n - 1)):
                    raise Finding("cl_fix_random: the number of equally likely draws is not a multiple of the number of values", kind="dist")
        for g in gs:
            e = c.norm(g)
            vs = sorted(e.vars())
            lo, hi = s.bounds(*s.fields(rf))
            size = c.norm(c.norm(hi) - c.norm(lo)) + 1
            if any(v_ not in draws for v_ in vs):
                c.soft = "the generated value is not an affine function of the drawn numbers"
                continue
            if not vs:
                cut = restrictions(c, draws)
                if not draws and odd:
                    c.soft = "chosen from a list: the distribution is not judged"
                elif not cut:
                    s.same(size, Expr.const(1), "cl_fix_random: the same value is generated always")
                elif len(cut) == 1:
                    # all drawn numbers of this branch give the same value
                    (v_,) = cut
                    a, b = c.box[v_]
                    part = c.norm(c.norm(b) - c.norm(a)) + 1
                    a, b = draws[v_]
                    whole = c.norm(c.norm(b) - c.norm(a)) + 1
                    s.ge(c.norm(whole - c.norm(part * size)), "cl_fix_random: several drawn numbers give the same value, which occurs too often")
                    c.soft = "the drawn number is restricted by a branch"
                else:
                    c.soft = "the drawn numbers are restricted by a branch"
                continue
            for v_ in vs:
                if v_ in used:
                    raise Finding("cl_fix_random: two elements depend on the same drawn number", kind="dist")
            used += vs
            if restrictions(c, {v_: draws[v_] for v_ in vs}):
                c.soft = "the drawn number is restricted by a branch"
                continue
            n = Expr.const(1)
            for v_ in vs:
                a, b = draws[v_]
                n = c.norm(n * (c.norm(c.norm(b) - c.norm(a)) + 1))
            # an affine map with non-zero coefficients takes its smallest value for exactly one combination of drawn numbers
            s.same(n, size, "cl_fix_random: the smallest value occurs too seldom or too often (number of equally likely draws / number of values)")
            if len(vs) > 1:
                if not mixed_radix(c, c.norm(g), {v_: draws[v_] for v_ in vs}):
                    c.soft = "several drawn numbers are combined"
                continue
            co = c.norm(c._coef(c.norm(g), vs[0]))
            if not (c.norm(co - 1).is_zero() or c.norm(co + 1).is_zero()):
                s.same(c.norm(co * co), Expr.const(1), "cl_fix_random: not every value of the format is generated")
    return fn


def mixed_radix(c, g, draws):
    """g = +-(k1 + n1 k2 + n1 n2 k3 ...): every combination of drawn numbers gives another value"""
    for perm in itertools.permutations(draws):
        w = Expr.const(1)
        for v_ in perm:
            co = c.norm(c._coef(g, v_))
            if not (c.norm(co - w).is_zero() or c.norm(co + w).is_zero()):
                break
            a, b = draws[v_]
            w = c.norm(w * (c.norm(c.norm(b) - c.norm(a)) + 1))
        else:
            return True
    return False


def skewed_calls(start):
    """calls of a generator that is not uniform, in `start` and the package's functions it calls by name"""
    fns = {}
    for p in sorted(os.listdir(PK)):
        if not p.endswith(".py"):
            continue
        with open(os.path.join(PK, p)) as f:
            for n in ast.walk(ast.parse(f.read())):
                if isinstance(n, ast.FunctionDef):
                    fns.setdefault(n.name, n)
    todo, seen, out = [start], set(), []
    while todo:
        n = todo.pop()
        if n in seen or n not in fns:
            continue
        seen.add(n)
        for x in ast.walk(fns[n]):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Name):
                todo.append(x.func.id)
            if isinstance(x.func, ast.Attribute) and x.func.attr in SKEWED:
                b = x.func.value
                if (b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "") in ("random", "rng"):
                    out.append("random." + x.func.attr)
    return out


def restrictions(c, draws):
    """drawn numbers that a branch on the path has restricted"""
    out = []
    for v_, (lo, hi) in draws.items():
        e = c.norm(Expr.var(v_))
        for want, low in ((lo, True), (hi, False)):
            if not all(c.norm(c.norm(x) - c.norm(want)).is_zero() for x in c._corners(e, low)):
                out.append(v_)
                break
    return out


def ob_c25(tier):
    obs = []
    for ns, Q0 in with_S(fmt_poly(["r"]), "r"):
        for nw, Q in width_split(Q0, "r"):
            for shape, K in (((2,), 2), (1, 1), ((), 1), ((1, 2), 2), ((2, 1), 2)):
                obs.append(Ob(f"cl_fix_random[{ns}{nw},shape {shape}]", Q, uniform_ob(shape, K), "en_cl_fix.cl_fix_random"))
    return obs


def no_state_random(s):
    no_state(s)
    if warned(s):
        raise Finding("cl_fix_random warns", kind="warn")


def ob_c24(tier):
    obs = []
    P = fmt_poly(["r"])
    for ns, Q0 in with_S(P, "r"):
        for nw, Q in width_split(Q0, "r"):
            for shape, K in (((2,), 2), (1, 1), ((), 1), ((1, 2), 2), ((2, 1), 2)):
                obs.append(Ob(f"cl_fix_zeros[{ns}{nw},shape {shape}]", Q, zeros_ob(shape, K), "en_cl_fix.cl_fix_zeros"))
                obs.append(Ob(f"cl_fix_random[{ns}{nw},shape {shape}]", Q, random_ob(shape, K), "en_cl_fix.cl_fix_random"))
    return obs


if __name__ == "__main__":
    import sys
    from ob import run_all, print_res
    import collections, time
    g = globals()["ob_" + sys.argv[1]]
    obs = [o for o in g("quick") if len(sys.argv) < 3 or sys.argv[2] in o.name]
    t = time.time()
    rs = run_all(obs, "quick", jobs=1 if len(sys.argv) > 3 else 8)
    for r in sorted(rs, key=lambda r: -r["wall"])[:6]:
        print_res(r)
    print("----")
    for r in rs:
        if r["verdict"] != "proved":
            print_res(r)
    print(collections.Counter(r["verdict"] for r in rs), sum(r["paths"] for r in rs), round(time.time() - t, 1))
