"""C12 effects and aliasing, C13 representation, C14 warnings, C15 rejected requests."""
from c_py import *
import ast as _ast
from summ import *
from c_arith import resize_any, cells, narrow_if, modes, arith, shift_ob, chk_warn, round_mid
from c_misc import (cmp_ob, in_range_ob, from_real, from_integer, to_integer, to_real, from_narrow, pack_to, pack_from,
                    real_poly, real_in, zeros_ob, random_ob, OPS, get_mod_fn)


def mode_cells(P, names="a"):
    for nw, Q in width_split(P, names):
        yield nw, Q


# =========================================================================== C12
def fmt_effects(name, nargs, extra=()):
    def fn(c):
        s = Sess(c)
        a, b = s.pfmt("a"), s.pfmt("b")
        args = [a, b][:nargs]
        if name == "cl_fix_shift_fmt":
            c.add_lin(v("n1") - v("n0"))
            args += [c.lin(v("n0")), c.lin(v("n1"))]
        if name == "cl_fix_round_fmt":
            args += [c.lin(v("n0")), any_member(s, "FixRound", "rnd")]
        if name == "cl_fix_union_fmt[list]":
            r = s.call(s.api("cl_fix_union_fmt"), [A.PyList([a, b])])
        else:
            r = s.call(s.api(name), args)
        no_state(s)
        if r is a or r is b:
            raise Finding(f"{name} returns one of its arguments instead of an independent format", kind="alias")
        if warned(s):
            raise Finding(f"{name} warns", kind="warn")
    return fn


def ctor_effects(cls, form="arr"):
    """data handed to a constructor (default copying) and data handed out are independent copies"""
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        a, ns = s.data("a", *s.fields(af), form=form, wide=cls == "WideFix")
        s.I.phase = "run"
        x = s.I.call(s.cls(cls), [a, af], {})
        d, f = x.attrs.get("_data"), x.attrs.get("_fmt")
        no_state(s)
        if isinstance(d, A.Arr) and isinstance(a, A.Arr) and d.buf is a.buf:
            raise Finding(f"{cls}: the object shares memory with the array it was built from", kind="alias")
        if f is af:
            raise Finding(f"{cls}: the object shares the format object it was built with", kind="alias")
        y, g = s.I.getattr(x, "data"), s.I.getattr(x, "fmt")
        for o, own, nm in ((y, d, "data"), (g, f, "fmt")):
            if o is own or (isinstance(o, A.Arr) and isinstance(own, A.Arr) and o.buf is own.buf):
                raise Finding(f"{cls}.{nm} hands out the internal object instead of a copy", kind="alias")
        no_state(s)
        for g_, n in zip(s.decode(y, *s.fields(af), wide=cls == "WideFix", nd=ndof(form, 1)), ns):
            s.same(g_, n, f"{cls}.data is not the stored data")
        for p, q in zip(s.fields(g), s.fields(af)):
            if not c.lin_eq0(c.lin(p - q)):
                raise Finding(f"{cls}.fmt is not the stored format", kind="fmt")
    return fn


def cmp_effects(cls, op):
    def fn(c):
        s = Sess(c)
        af, bf = s.pfmt("a"), s.pfmt("b")
        wide = cls == "WideFix"
        a, _ = s.data("a", *s.fields(af), wide=wide)
        b, _ = s.data("b", *s.fields(bf), wide=wide)
        x, y = s.fix(cls, a, af), s.fix(cls, b, bf)
        s.I.phase = "run"
        s.I.compare(OPS[op](), x, y)
        no_state(s)
    return fn


ARR_FORMS = ("arr", "zd")


def ob_c12(tier):
    obs = []
    P1, P2, Pf = fmt_poly(["a"]), fmt_poly(["a", "b"]), fmt_poly(["a", "b"], ["n0", "n1"])
    P1r, P2r = fmt_poly(["a", "r"]), fmt_poly(["a", "b", "r"])
    for nm, n in (("cl_fix_add_fmt", 2), ("cl_fix_sub_fmt", 2), ("cl_fix_addsub_fmt", 2), ("cl_fix_mult_fmt", 2),
                  ("cl_fix_neg_fmt", 1), ("cl_fix_abs_fmt", 1), ("cl_fix_shift_fmt", 1), ("cl_fix_round_fmt", 1),
                  ("cl_fix_union_fmt", 2), ("cl_fix_union_fmt[list]", 2)):
        obs.append(Ob(f"{nm}: formats untouched", Pf, fmt_effects(nm, n), nm))
    for cls in ("NarrowFix", "WideFix"):
        for form in ARR_FORMS + ("sc",):
            obs.append(Ob(f"{cls} constructor / accessors copy[{form}]", narrow_if(cls, P1, "a"), ctor_effects(cls, form), f"{cls}.__init__"))
        for op in OPS:
            obs.append(Ob(f"{cls}.{op}: operands untouched", narrow_if(cls, P2, "ab"), cmp_effects(cls, op), f"{cls}.{op}"))
    Pround = fmt_poly(["a"], ["rF"])
    for m in ROUND:
        for nw, Q in width_split(Pround, "a"):
            for form in ARR_FORMS:
                obs.append(Ob(f"cl_fix_round[{m},{nw},{form}]", Q, round_api(m, form, prop="effects"), "en_cl_fix.cl_fix_round", weight=2))
        for cls in ("NarrowFix", "WideFix"):
            obs.append(Ob(f"{cls}.round[{m}]", narrow_if(cls, Pround, "a"), round_meth(cls, m, prop="effects"), f"{cls}.round", weight=2))
    for m in SAT:
        for nw, Q in width_split(sat_poly(), "a"):
            for form in ARR_FORMS:
                obs.append(Ob(f"cl_fix_saturate[{m},{nw},{form}]", Q, sat_api(m, form, prop="effects"), "en_cl_fix.cl_fix_saturate", weight=2))
        for cls in ("NarrowFix", "WideFix"):
            Q = narrow_if(cls, sat_poly(), "a")
            if cls == "NarrowFix":
                Q = Q.add(NARROW - v("rS") - v("rI") - v("aF"))
            obs.append(Ob(f"{cls}.saturate[{m}]", Q, sat_api(m, prop="effects", obj=cls), f"{cls}.saturate", weight=2))
    for rm, sm in (("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s")):
        for nw, Q in width_split(P1r, "a"):
            for form in ARR_FORMS:
                obs.append(Ob(f"cl_fix_resize[{rm},{sm},{nw},{form}]", Q, resize_api(rm, sm, form, prop="effects"), "en_cl_fix.cl_fix_resize", weight=6))
    for rm, sm in (("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s")):
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.resize[{rm},{sm}]", narrow_if(cls, P1r, "a"), resize_meth(cls, rm, sm, prop="effects"), f"{cls}.resize", weight=6))
    A_ = dict(rm="any", sm="any", prop="effects")
    E_ = dict(prop="effects")
    for op in ("add", "sub", "mult"):
        for nm, Q in cells(P2, "", "ab"):
            for form in ARR_FORMS:
                obs.append(Ob(f"cl_fix_{op}[exact,{nm}{form}]", Q, arith(op, form, **E_), f"en_cl_fix.cl_fix_{op}", weight=4))
        for nm, Q in cells(P2r, "", "ab"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_), f"en_cl_fix.cl_fix_{op}", weight=8))
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.{op}[exact]", narrow_if(cls, P2, "ab"), arith(op, cls=cls, **E_), f"{cls}.{op}", weight=4))
    for nm, Q in cells(P2, "", "ab"):
        obs.append(Ob(f"cl_fix_addsub[exact,{nm}]", Q, arith("addsub", addarg="arr", **E_), "en_cl_fix.cl_fix_addsub", weight=8))
    for cls in ("WideFix", "NarrowFix"):
        obs.append(Ob(f"{cls}.addsub[exact]", narrow_if(cls, P2, "ab"), arith("addsub", cls=cls, addarg="arr", **E_), f"{cls}.addsub", weight=8))
    Ps, Psr = fmt_poly(["a"], ["n0", "n1"]), fmt_poly(["a", "r"], ["n0", "n1"])
    for op in ("neg", "abs"):
        for nm, Q in cells(P1, "", "a"):
            for form in ARR_FORMS:
                obs.append(Ob(f"cl_fix_{op}[exact,{nm}{form}]", Q, arith(op, form, **E_), f"en_cl_fix.cl_fix_{op}"))
        for nm, Q in cells(P1r, "", "a"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_), f"en_cl_fix.cl_fix_{op}", weight=3))
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.{op}[exact]", narrow_if(cls, P1, "a"), arith(op, cls=cls, **E_), f"{cls}.{op}"))
    for nm, Q in cells(Ps, "", "a"):
        for form in ARR_FORMS:
            obs.append(Ob(f"cl_fix_shift[exact,{nm}{form}]", Q, shift_ob(form, nshift=0, **E_), "en_cl_fix.cl_fix_shift"))
        obs.append(Ob(f"cl_fix_shift[exact,{nm}per element]", Q, shift_ob(K=2, nshift=2, **E_), "en_cl_fix.cl_fix_shift"))
    for nm, Q in cells(Psr, "", "a"):
        obs.append(Ob(f"cl_fix_shift[any modes,{nm}]", Q, shift_ob(nshift=0, **A_), "en_cl_fix.cl_fix_shift", weight=3))
    for cls in ("WideFix", "NarrowFix"):
        obs.append(Ob(f"{cls}.shift[exact]", narrow_if(cls, Ps, "a"), shift_ob(nshift=0, cls=cls, **E_), f"{cls}.shift"))
        obs.append(Ob(f"{cls}.shift[exact,per element]", narrow_if(cls, Ps, "a"), shift_ob(K=2, nshift=2, cls=cls, **E_), f"{cls}.shift"))
    for nw, Q in width_split(P1r, "a"):
        for form in ARR_FORMS:
            obs.append(Ob(f"cl_fix_in_range[{nw},{form}]", Q, in_range_ob(form=form, prop="effects"), "en_cl_fix.cl_fix_in_range", weight=2))
    obs.append(Ob("NarrowFix.in_range", narrow_if("NarrowFix", P1r, "a"), in_range_ob("NarrowFix", prop="effects"), "NarrowFix.in_range"))
    for nw, Q in width_split(real_poly(["r"]), "r"):
        for form in ARR_FORMS + ("list",):
            obs.append(Ob(f"cl_fix_from_real[{nw},{form}]", Q, from_real(form, prop="effects"), "en_cl_fix.cl_fix_from_real"))
    for nw, Q in width_split(fmt_poly(["r"]), "r"):
        for form in ARR_FORMS:
            obs.append(Ob(f"cl_fix_from_integer[{nw},{form}]", Q, from_integer(form, prop="effects"), "en_cl_fix.cl_fix_from_integer"))
    Prw = fmt_poly(["r"], ["w"]).add(v("w"))
    for form in ARR_FORMS:
        obs.append(Ob(f"cl_fix_from_integer[wide,{form},int]", width_split(Prw, "r")[1][1], from_integer(form, dtype="O", prop="effects"), "en_cl_fix.cl_fix_from_integer"))
    for nw, Q in width_split(P1, "a"):
        for form in ARR_FORMS:
            obs.append(Ob(f"cl_fix_to_integer[{nw},{form}]", Q, to_integer(form, prop="effects"), "en_cl_fix.cl_fix_to_integer"))
            obs.append(Ob(f"cl_fix_to_real[{nw},{form}]", Q, to_real(form, prop="effects"), "en_cl_fix.cl_fix_to_real"))
    Pp = width_split(P1.add(Lin(320) - v("aS") - v("aI") - v("aF")), "a")[1][1]
    for form in ARR_FORMS:
        obs.append(Ob(f"matlab to_uint64_array[{form}]", Pp, pack_to("matlab", form, prop="effects"), "matlab_interface.to_uint64_array"))
    obs.append(Ob("matlab from_uint64_array", Pp, pack_from("matlab", prop="effects"), "matlab_interface.from_uint64_array"))
    obs.append(Ob("WideFix.to_uint64_array", Pp, pack_to("WideFix", prop="effects"), "WideFix.to_uint64_array"))
    obs.append(Ob("WideFix.from_uint64_array", Pp, pack_from("WideFix", prop="effects"), "WideFix.from_uint64_array"))
    return obs


# =========================================================================== C13
FORMS13 = (("arr", 1), ("sc", 1), ("zd", 1), ("npsc", 1), ("arr", 2), ("row", 1), ("row", 2), ("col", 2))


def ob_c13(tier):
    obs = []
    P1, P2 = fmt_poly(["a"]), fmt_poly(["a", "b"])
    P1r, P2r = fmt_poly(["a", "r"]), fmt_poly(["a", "b", "r"])
    R_ = dict(prop="repr")
    A_ = dict(rm="any", sm="any", prop="repr")
    Pround = fmt_poly(["a"], ["rF"])
    for form, K in FORMS13:
        two = form in ("row", "col")
        A_ = dict(rm="NonSymPos_s" if two else "any", sm="Sat_s" if two else "any", prop="repr")
        an = "NonSymPos_s,Sat_s" if two else "any modes"
        t = "shape " + str(dimsof(form, K)) if two else form if K == 1 else "2 elements"
        two = two and K == 2                                # several dimensions, two elements: the cheap operations only
        for m in ROUND:
            if K == 2 and m not in ("Trunc_s",) + ((),("ConvEven_s",))[not two]:
                continue
            for nw, Q in width_split(Pround, "a"):
                obs.append(Ob(f"cl_fix_round[{m},{nw},{t}]", Q, round_api(m, form, K, **R_), "en_cl_fix.cl_fix_round", weight=2))
        for m in SAT:
            if K == 2 and m not in ("None_s", "Sat_s"):
                continue
            for nw, Q in width_split(sat_poly(), "a"):
                obs.append(Ob(f"cl_fix_saturate[{m},{nw},{t}]", Q, sat_api(m, form, K, **R_), "en_cl_fix.cl_fix_saturate", weight=2))
        for rm, sm in (("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s")):
            if K == 1:
                for nw, Q in width_split(P1r, "a"):
                    obs.append(Ob(f"cl_fix_resize[{rm},{sm},{nw},{t}]", Q, resize_api(rm, sm, form, K, **R_), "en_cl_fix.cl_fix_resize", weight=6))
                if form != "sc":
                    for cls in ("WideFix", "NarrowFix"):
                        obs.append(Ob(f"{cls}.resize[{rm},{sm},{t}]", narrow_if(cls, P1r, "a"), resize_meth(cls, rm, sm, form, prop="repr"), f"{cls}.resize", weight=6))
        for op in ("add", "sub", "mult"):
            if K == 2:
                for cls in ("WideFix", "NarrowFix"):
                    obs.append(Ob(f"{cls}.{op}[exact,{t}]", narrow_if(cls, P2, "ab"), arith(op, form, K, cls=cls, **R_), f"{cls}.{op}", weight=4))
                continue
            for nm, Q in cells(P2, "", "ab"):
                obs.append(Ob(f"cl_fix_{op}[exact,{nm}{t}]", Q, arith(op, form, K, **R_), f"en_cl_fix.cl_fix_{op}", weight=4))
            for nm, Q in cells(P2r, "", "ab"):
                obs.append(Ob(f"cl_fix_{op}[{an},{nm}{t}]", Q, arith(op, form, K, **A_), f"en_cl_fix.cl_fix_{op}", weight=8))
        for op in ("neg", "abs"):
            for nm, Q in cells(P1, "", "a"):
                obs.append(Ob(f"cl_fix_{op}[exact,{nm}{t}]", Q, arith(op, form, K, **R_), f"en_cl_fix.cl_fix_{op}", weight=2))
            for nm, Q in () if two else cells(P1r, "", "a"):
                obs.append(Ob(f"cl_fix_{op}[{an},{nm}{t}]", Q, arith(op, form, K, **A_), f"en_cl_fix.cl_fix_{op}", weight=3))
        for nm, Q in cells(fmt_poly(["a"], ["n0", "n1"]), "", "a"):
            obs.append(Ob(f"cl_fix_shift[exact,{nm}{t}]", Q, shift_ob(form, K, nshift=0, **R_), "en_cl_fix.cl_fix_shift", weight=2))
            if two:
                obs.append(Ob(f"cl_fix_shift[exact,{nm}{t},per element]", Q, shift_ob(form, K, nshift=2, **R_), "en_cl_fix.cl_fix_shift", weight=3))
        for nm, Q in () if two else cells(fmt_poly(["a", "r"], ["n0", "n1"]), "", "a"):
            obs.append(Ob(f"cl_fix_shift[{an},{nm}{t}]", Q, shift_ob(form, K, nshift=0, **A_), "en_cl_fix.cl_fix_shift", weight=3))
        for nw, Q in () if two else width_split(P1r, "a"):
            obs.append(Ob(f"cl_fix_in_range[{nw},{t}]", Q, in_range_ob(None, form, K, prop="repr"), "en_cl_fix.cl_fix_in_range", weight=3))
        for nw, Q in width_split(real_poly(["r"]), "r"):
            obs.append(Ob(f"cl_fix_from_real[{nw},{t}]", Q, from_real(form, K, prop="repr"), "en_cl_fix.cl_fix_from_real", weight=2))
        if form == "npsc":
            continue
        for nw, Q in width_split(fmt_poly(["r"]), "r"):
            obs.append(Ob(f"cl_fix_from_integer[{nw},{t}]", Q, from_integer(form, K, prop="repr"), "en_cl_fix.cl_fix_from_integer"))
        for nw, Q in width_split(P1, "a"):
            obs.append(Ob(f"cl_fix_to_integer[{nw},{t}]", Q, to_integer(form, K, prop="repr"), "en_cl_fix.cl_fix_to_integer"))
            obs.append(Ob(f"cl_fix_to_real[{nw},{t}]", Q, to_real(form, K, prop="repr"), "en_cl_fix.cl_fix_to_real"))
    for ad in (True, "arr"):
        for nm, Q in cells(P2, "", "ab"):
            obs.append(Ob(f"cl_fix_addsub[exact,{nm}add={ad}]", Q, arith("addsub", addarg=ad, **R_), "en_cl_fix.cl_fix_addsub", weight=8))
    for form in ("arr", "zd"):
        for cls in ("NarrowFix", "WideFix"):
            for m in ROUND:
                obs.append(Ob(f"{cls}.round[{m},{form}]", narrow_if(cls, Pround, "a"), round_meth(cls, m, form, prop="repr"), f"{cls}.round", weight=2))
            for m in SAT:
                Q = narrow_if(cls, sat_poly(), "a")
                if cls == "NarrowFix":
                    Q = Q.add(NARROW - v("rS") - v("rI") - v("aF"))
                obs.append(Ob(f"{cls}.saturate[{m},{form}]", Q, sat_api(m, form, prop="repr", obj=cls), f"{cls}.saturate", weight=2))
    for nw, Q in width_split(P1, "a"):
        obs.append(Ob(f"min/max value[{nw}]", Q, minmax_repr, "cl_fix_max_value"))
    for ns, Q0 in with_S(fmt_poly(["r"]), "r"):
        for nw, Q in width_split(Q0, "r"):
            for shape, K in (((2,), 2), (1, 1), ((), 1), ((1, 2), 2), ((2, 1), 2)):
                obs.append(Ob(f"cl_fix_zeros[{ns}{nw},shape {shape}]", Q, zeros_ob(shape, K), "en_cl_fix.cl_fix_zeros"))
                obs.append(Ob(f"cl_fix_random[{ns}{nw},shape {shape}]", Q, random_ob(shape, K, prop="repr"), "en_cl_fix.cl_fix_random"))
    Pw = width_split(P1.add(Lin(320) - v("aS") - v("aI") - v("aF")), "a")[1][1]
    obs.append(Ob("matlab from_uint64_array", Pw, pack_from("matlab", prop="repr"), "matlab_interface.from_uint64_array"))
    for cls in ("NarrowFix", "WideFix"):
        obs.append(Ob(f"len({cls})", narrow_if(cls, P1, "a"), len_ob(cls), f"{cls}.__len__"))
    return obs


def minmax_repr(c):
    s = Sess(c)
    a = s.pfmt("a")
    for nm in ("cl_fix_max_value", "cl_fix_min_value"):
        s.decode(s.call(s.api(nm), [a]), *s.fields(a), what=nm, nd=0)


def len_ob(cls):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        a, _ = s.data("a", *s.fields(af), K=2, wide=cls == "WideFix")
        x = s.fix(cls, a, af)
        s.I.phase = "run"
        r = s.I.call(s.I.builtins["len"] if hasattr(s.I, "builtins") and "len" in s.I.builtins else s.I.getattr(x, "__len__"),
                     [x] if hasattr(s.I, "builtins") and "len" in s.I.builtins else [], {})
        if r != 2:
            raise Finding(f"len({cls}) is {r}, expected 2", kind="value")
    return fn


# =========================================================================== C14
def to_real_warn(form="arr"):
    def fn(c):
        s = Sess(c)
        af = s.pfmt("a")
        a, ns = s.data("a", *s.fields(af), form=form, wide=True)
        x = s.fix("WideFix", a, af)
        s.I.phase = "run"
        und = None
        try:
            s.I.call(s.I.getattr(x, "to_real"), [], {})
        except Undecided as u:
            und = u
        w = warned(s)
        if w:
            lim = Expr.pow2(Lin(52))
            if c.decide(c.norm(lim - 1 - c.norm(ns[0]))) and c.decide(c.norm(c.norm(ns[0]) + lim)):
                raise Finding("to_real warns about precision although the value is exactly representable", kind="warn")
            return
        if und is not None:
            lim = Expr.pow2(Lin(53))
            inside = c.decide(c.norm(lim - c.norm(ns[0]))) and c.decide(c.norm(c.norm(ns[0]) + lim))
            if inside:
                raise und
            raise Finding("to_real gives no warning although precision may be lost", kind="warn")
    return fn


def ob_c14(tier):
    obs = []
    P1, P2 = fmt_poly(["a"]), fmt_poly(["a", "b"])
    P1r, P2r = fmt_poly(["a", "r"]), fmt_poly(["a", "b", "r"])
    W_ = dict(prop="warn")
    A_ = dict(rm="any", sm="any", prop="warn")
    for m in SAT:
        for nw, Q in width_split(sat_poly(), "a"):
            for form in ("arr", "sc", "zd"):
                obs.append(Ob(f"cl_fix_saturate[{m},{nw},{form}]", Q, sat_api(m, form, **W_), "en_cl_fix.cl_fix_saturate"))
            obs.append(Ob(f"cl_fix_saturate[{m},{nw},2 elements]", Q, sat_api(m, "arr", 2, **W_), "en_cl_fix.cl_fix_saturate", weight=4))
        for cls in ("NarrowFix", "WideFix"):
            Q = narrow_if(cls, sat_poly(), "a")
            if cls == "NarrowFix":
                Q = Q.add(NARROW - v("rS") - v("rI") - v("aF"))
            obs.append(Ob(f"{cls}.saturate[{m}]", Q, sat_api(m, obj=cls, **W_), f"{cls}.saturate"))
    for nm, Q in cells(P1r, "r", "a"):
        for form in ("arr", "zd"):
            obs.append(Ob(f"cl_fix_resize[any modes,{nm}{form}]", Q, resize_any(None, form, prop="warn"), "en_cl_fix.cl_fix_resize", weight=3))
    for cls in ("WideFix", "NarrowFix"):
        for nm, Q in cells(P1r, "r", ""):
            obs.append(Ob(f"{cls}.resize[any modes,{nm}]", narrow_if(cls, Q, "a"), resize_any(cls, prop="warn"), f"{cls}.resize", weight=3))
    for op in ("add", "sub", "mult", "addsub"):
        kw = dict(addarg="arr") if op == "addsub" else {}
        for nm, Q in cells(P2, "", "ab"):
            if op != "addsub":
                obs.append(Ob(f"cl_fix_{op}[exact,{nm}]", Q, arith(op, **W_, **kw), f"en_cl_fix.cl_fix_{op}", weight=4))
        for nm, Q in cells(P2r, "abr" if op == "addsub" else "", "ab"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_, **kw), f"en_cl_fix.cl_fix_{op}", weight=9))
        for cls in ("WideFix", "NarrowFix"):
            for nm, Q in cells(P2r, "ab" if op == "addsub" else "", ""):
                obs.append(Ob(f"{cls}.{op}[any modes,{nm}]", narrow_if(cls, Q, "ab"), arith(op, cls=cls, **A_, **kw), f"{cls}.{op}", weight=9))
    Ps, Psr = fmt_poly(["a"], ["n0", "n1"]), fmt_poly(["a", "r"], ["n0", "n1"])
    for op in ("neg", "abs"):
        for nm, Q in cells(P1, "", "a"):
            obs.append(Ob(f"cl_fix_{op}[exact,{nm}]", Q, arith(op, **W_), f"en_cl_fix.cl_fix_{op}"))
        for nm, Q in cells(P1r, "r", "a"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_), f"en_cl_fix.cl_fix_{op}", weight=3))
    for nm, Q in cells(Ps, "", "a"):
        obs.append(Ob(f"cl_fix_shift[exact,{nm}]", Q, shift_ob(nshift=0, **W_), "en_cl_fix.cl_fix_shift"))
    for nm, Q in cells(Psr, "r", "a"):
        obs.append(Ob(f"cl_fix_shift[any modes,{nm}]", Q, shift_ob(nshift=0, **A_), "en_cl_fix.cl_fix_shift", weight=3))
    for sm in ("Sat_s", "SatWarn_s", None):
        for ns, Q0 in with_S(real_poly(["r"]), "r"):
            for nw, Q in width_split(Q0, "r"):
                obs.append(Ob(f"cl_fix_from_real[{sm or 'default'},{ns}{nw}]", Q, from_real("arr", sm=sm, **W_), "en_cl_fix.cl_fix_from_real", weight=2))
                obs.append(Ob(f"cl_fix_from_real[{sm or 'default'},{ns}{nw},scalar]", Q, from_real("sc", sm=sm, **W_), "en_cl_fix.cl_fix_from_real", weight=2))
    for m in ROUND:
        for nw, Q in width_split(fmt_poly(["a"], ["rF"]), "a"):
            obs.append(Ob(f"cl_fix_round[{m},{nw}]: silent", Q, round_api(m, prop="effects"), "en_cl_fix.cl_fix_round", weight=2))
    for nw, Q in width_split(P1r, "a"):
        obs.append(Ob(f"cl_fix_in_range[{nw}]: silent", Q, in_range_ob(prop="effects"), "en_cl_fix.cl_fix_in_range", weight=2))
    for ns, Q in with_S(P1, "a"):
        obs.append(Ob(f"WideFix.to_real[{ns}]", Q, to_real_warn(), "WideFix.to_real"))
    return obs


# =========================================================================== C15
def rejects(what, setup):
    """setup(s) performs a request that is outside of the documented domain on the whole cell"""
    def fn(c):
        s = Sess(c)
        go = setup(s)
        if go is None:
            return
        s.I.phase = "run"
        try:
            r = go()
        except A.PyRaise as e:
            return
        raise Finding(f"{what} is accepted", kind="accept")
    return fn


def ob_c15(tier):
    obs = []

    def add(name, P, setup, entry):
        obs.append(Ob(name + ": rejected", P, rejects(name, setup), entry))

    free = Poly.top(["S", "I", "F"])
    for x in "SIF":
        free = free.add(v(x) + BOUND).add(BOUND - v(x))
    mkf = lambda s: (lambda: s.I.call(s.t.ns["FixFormat"], [s.c.lin(v("S")), s.c.lin(v("I")), s.c.lin(v("F"))], {}))
    add("FixFormat with S > 1", free.add(v("S") - 2), mkf, "FixFormat.__init__")
    add("FixFormat with S < 0", free.add(-1 - v("S")), mkf, "FixFormat.__init__")
    add("FixFormat with I+F < 0", free.add(v("S")).add(1 - v("S")).add(-1 - v("I") - v("F")), mkf, "FixFormat.__init__")

    # formats without any bit (S = 0, I+F = 0)
    def zfmt(n):
        P = Poly.top([n + "I"])
        return P.add(v(n + "I") + BOUND).add(BOUND - v(n + "I"))

    def zero(s, n):
        return s.fmt(Lin(0), v(n + "I"), -v(n + "I"), tag=f"input:{n}_fmt")

    def good(P, names, extra=()):
        Q = fmt_poly(names, extra)
        # conjunction of both parameter spaces
        R = Poly.top(list(Q.idx) + [x for x in P.idx if x not in Q.idx])
        for K in list(Q.constraints()) + list(P.constraints()):
            R = R.add(K)
        return R

    Pz = good(zfmt("z"), ["b"], ["n0", "n1"])
    for op in ("add", "sub", "addsub", "mult"):
        for first in (True, False):
            def st(s, op=op, first=first):
                z, b = zero(s, "z"), s.pfmt("b")
                return lambda: s.I.call(s.api(f"cl_fix_{op}_fmt"), [z, b] if first else [b, z], {})
            add(f"cl_fix_{op}_fmt with a zero-width {'first' if first else 'second'} operand", Pz, st, f"FixFormat.for_{op}")
    for op in ("neg", "abs"):
        add(f"cl_fix_{op}_fmt with a zero-width operand", Pz, lambda s, op=op: (lambda: s.I.call(s.api(f"cl_fix_{op}_fmt"), [zero(s, "z")], {})), f"FixFormat.for_{op}")
    add("cl_fix_shift_fmt with a zero-width operand", Pz,
        lambda s: (lambda: s.I.call(s.api("cl_fix_shift_fmt"), [zero(s, "z"), s.c.lin(v("n0"))], {})), "FixFormat.for_shift")
    add("cl_fix_round_fmt with a zero-width operand", Pz,
        lambda s: (lambda: s.I.call(s.api("cl_fix_round_fmt"), [zero(s, "z"), s.c.lin(v("n0")), s.rnd("Trunc_s")], {})), "FixFormat.for_round")
    Ps = fmt_poly(["a"], ["n0", "n1"])
    add("cl_fix_shift_fmt with minShift > maxShift", Ps.add(v("n0") - v("n1") - 1),
        lambda s: (lambda: s.I.call(s.api("cl_fix_shift_fmt"), [s.pfmt("a"), s.c.lin(v("n0")), s.c.lin(v("n1"))], {})), "FixFormat.for_shift")

    # wrong result formats
    Par = fmt_poly(["a", "r"])
    for mode in ROUND:
        for cls in (None, "NarrowFix", "WideFix"):
            def st(s, mode=mode, cls=cls):
                c = s.c
                af, rf = s.pfmt("a"), s.pfmt("r")
                want = s.call(s.api("cl_fix_round_fmt"), [af, s.fields(rf)[2], s.rnd(mode)])
                if all(c.lin_eq0(c.lin(x - y)) for x, y in zip(s.fields(rf), s.fields(want))):
                    return None
                a, _ = s.data("a", *s.fields(af), wide=None if cls is None else cls == "WideFix")
                if cls is None:
                    return lambda: s.I.call(s.api("cl_fix_round"), [a, af, rf, s.rnd(mode)], {})
                x = s.fix(cls, a, af)
                return lambda: s.I.call(s.I.getattr(x, "round"), [rf, s.rnd(mode)], {})
            nm = "cl_fix_round" if cls is None else f"{cls}.round"
            add(f"{nm} with a result format other than the rounding format[{mode}]", narrow_if(cls, Par, "a"), st, nm)
    for up in (0, 1):
        Q = Par.add(v("rF") - v("aF") - 1 if up else v("aF") - v("rF") - 1)
        for cls in (None, "NarrowFix", "WideFix"):
            for mode in SAT:
                def st(s, mode=mode, cls=cls):
                    af, rf = s.pfmt("a"), s.pfmt("r")
                    a, _ = s.data("a", *s.fields(af), wide=None if cls is None else cls == "WideFix")
                    if cls is None:
                        return lambda: s.I.call(s.api("cl_fix_saturate"), [a, af, rf, s.sat(mode)], {})
                    x = s.fix(cls, a, af)
                    return lambda: s.I.call(s.I.getattr(x, "saturate"), [rf, s.sat(mode)], {})
                nm = "cl_fix_saturate" if cls is None else f"{cls}.saturate"
                add(f"{nm} with {'more' if up else 'fewer'} fractional bits[{mode}]", narrow_if(cls, Q, "a"), st, nm)

    # representation of the data
    P1 = fmt_poly(["a"])
    for nw, Q in width_split(P1, "a"):
        def wrong(s, form, nw=nw):
            af = s.pfmt("a")
            c = s.c
            n = c.new_input("a", Expr(), Expr.const(0))
            if form == "object":
                return A.Arr([s.I.mk("int", n)], "O", 1, tag="input:a"), af
            if form == "float64":
                return A.Arr([n], "f8", 1, tag="input:a"), af
            if form == "int64":
                return A.Arr([n], "i8", 1, tag="input:a"), af
            if form == "object of float":
                return A.Arr([A.Sc("float", n)], "O", 1, tag="input:a"), af
        bad = {"NarrowFix": ("object", "int64"), "WideFix": ("float64", "int64", "object of float")}
        for cls in bad:
            for form in bad[cls]:
                if cls == "NarrowFix" and nw == "wide":
                    continue
                def st(s, cls=cls, form=form):
                    a, af = wrong(s, form)
                    return lambda: s.I.call(s.cls(cls), [a, af], {})
                add(f"{cls} holding {form} data[{nw}]", Q, st, f"{cls}.__init__")
        ops = {"cl_fix_round": lambda s, a, af: [a, af, af, s.rnd("Trunc_s")],
               "cl_fix_saturate": lambda s, a, af: [a, af, af, s.sat("None_s")],
               "cl_fix_neg": lambda s, a, af: [a, af], "cl_fix_abs": lambda s, a, af: [a, af],
               "cl_fix_add": lambda s, a, af: [a, af, a, af], "cl_fix_mult": lambda s, a, af: [a, af, a, af],
               "cl_fix_sub": lambda s, a, af: [a, af, a, af]}
        for nm, mk in ops.items():
            form = "object" if nw == "narrow" else "float64"
            def st(s, nm=nm, mk=mk, form=form):
                a, af = wrong(s, form)
                return lambda: s.I.call(s.api(nm), mk(s, a, af), {})
            add(f"{nm} with {form} data of a {nw} format", Q, st, f"en_cl_fix.{nm}")

    def st(s):
        af = s.pfmt("a")
        a = A.Arr([Expr()], "f8", 1, tag="input:a")
        return lambda: s.I.call(s.cls("NarrowFix"), [a, af], {})
    add("NarrowFix with a format that is too wide", width_split(P1, "a")[1][1], st, "NarrowFix.__init__")

    # conversions
    for nw, Q in width_split(real_poly(["r"]), "r"):
        for sm in ("None_s", "Warn_s"):
            def st(s, sm=sm):
                a, _ = real_in(s, "arr", 1, v("p"))
                return lambda: s.I.call(s.api("cl_fix_from_real"), [a, s.pfmt("r"), s.sat(sm)], {})
            add(f"cl_fix_from_real with the mode {sm}[{nw}]", Q, st, "en_cl_fix.cl_fix_from_real")
    for nw, Q in width_split(fmt_poly(["r"]), "r"):
        for form in ("arr", "sc", "zd"):
            obs.append(Ob(f"cl_fix_from_integer out of range[{nw},{form}]: rejected", Q, from_integer(form, prop="reject"), "en_cl_fix.cl_fix_from_integer"))
        obs.append(Ob(f"cl_fix_from_integer out of range[{nw},2 elements]: rejected", Q, from_integer("arr", 2, prop="reject"), "en_cl_fix.cl_fix_from_integer", weight=2))
    Prw = fmt_poly(["r"], ["w"]).add(v("w"))
    for form in ("arr", "sc", "zd"):
        obs.append(Ob(f"cl_fix_from_integer out of range[wide,{form},int]: rejected", width_split(Prw, "r")[1][1],
                      from_integer(form, dtype="O", prop="reject"), "en_cl_fix.cl_fix_from_integer"))

    # uint64 packing
    Pn, Pw = (Q for _, Q in width_split(P1.add(Lin(320) - v("aS") - v("aI") - v("aF")), "a"))

    def pk(s, dt):
        f = get_mod_fn(s, "to_uint64_array")
        a = A.Arr([s.I.mk("int", Expr()) if dt == "O" else Expr()], dt, 1, tag="input:a")
        return lambda: s.I.call(f, [a, s.pfmt("a")], {})
    add("to_uint64_array with a narrow format", Pn, lambda s: pk(s, "O"), "matlab_interface.to_uint64_array")
    for dt in ("f8", "i8"):
        add(f"to_uint64_array with {dt} data", Pw, lambda s, dt=dt: pk(s, dt), "matlab_interface.to_uint64_array")

    def upk(s, dt):
        f = get_mod_fn(s, "from_uint64_array")
        st_ = A.Arr([Expr()], dt, A.Nd((1, 1)), tag="input:data")
        return lambda: s.I.call(f, [st_, s.pfmt("a")], {})
    add("from_uint64_array with a narrow format", Pn, lambda s: upk(s, "u8"), "matlab_interface.from_uint64_array")
    for dt in ("f8", "i8"):
        add(f"from_uint64_array with {dt} data", Pw, lambda s, dt=dt: upk(s, dt), "matlab_interface.from_uint64_array")

    # comparing different kinds of objects
    for op in OPS:
        def st(s, op=op):
            af = s.pfmt("a")
            a, _ = s.data("a", *s.fields(af), wide=False)
            x = s.fix("NarrowFix", a, af)
            return lambda: s.I.compare(OPS[op](), x, a)
        add(f"NarrowFix.{op} with an array", Pn_full(P1), st, f"NarrowFix.{op}")
    return obs


def Pn_full(P):
    return width_split(P, "a")[0][1]


if __name__ == "__main__":
    import sys
    from ob import run_all, print_res
    import collections, time
    g = globals()["ob_" + sys.argv[1]]
    obs = [o for o in g("quick") if len(sys.argv) < 3 or sys.argv[2] in o.name]
    t = time.time()
    rs = run_all(obs, "quick", jobs=1 if len(sys.argv) > 3 else 8)
    for r in sorted(rs, key=lambda r: -r["wall"])[:6]:
        print_res(r)
    print("----")
    for r in rs:
        if r["verdict"] != "proved":
            print_res(r)
    print(collections.Counter(r["verdict"] for r in rs), sum(r["paths"] for r in rs), round(time.time() - t, 1))
