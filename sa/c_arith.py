"""C07 arithmetic obligations of the Python model."""
from c_py import *
from summ import *


def mid_F(s, op, aF, bF=None, n=None):
    c = s.c
    if op in ("add", "sub", "addsub"):
        return c.lin(aF) if c.decide_lin(c.lin(aF - bF)) else c.lin(bF)
    if op == "mult":
        return c.lin(aF + bF)
    return c.lin(aF)


def exact_int(s, op, na, aF, nb=None, bF=None, mF=None):
    """exact result as an integer with mF fractional bits"""
    c = s.c
    mF, aF = c.lin(mF), c.lin(aF)
    if op == "mult":
        return c.norm(na * nb).shift(c.lin(mF - aF - c.lin(bF)))
    a = c.norm(na).shift(c.lin(mF - aF))
    if op == "neg":
        return c.norm(-a)
    if op == "abs":
        return c.norm(a) if c.decide(c.norm(na)) else c.norm(-c.norm(a))
    b = c.norm(nb).shift(c.lin(mF - c.lin(bF)))
    return c.norm(a + b if op == "add" else a - b)


def resized(s, m, mF, mid, r, rm, sm):
    """oracle: the value m*2^-mF of format mid brought into format r (rounded, then saturated / wrapped)"""
    c = s.c
    rS, rI, rF = s.fields(r)
    lo, hi = s.bounds(*s.fields(s.call(s.api("cl_fix_round_fmt"), [mid, rF, rm])))
    rS, rI, rF = s.fields(r)
    m = uf_round(c, m, c.lin(mF), rF, mkey(rm), lo, hi)
    rS, rI, rF = s.fields(r)
    return uf_sat(c, m, rS, rI, rF, is_in(sm, ("Sat_s", "SatWarn_s")))


def modes(s, rm, sm):
    if rm == "any":
        return any_member(s, "FixRound", "rnd"), any_member(s, "FixSaturate", "sat")
    return s.rnd(rm), s.sat(sm)


def arith(op, form="arr", K=1, rm=None, sm=None, cls=None, prop="value", addarg=None):
    """rm None: the format and the modes are left to their defaults (full precision)"""
    binary = op in ("add", "sub", "mult", "addsub")

    def fn(c):
        try:
            return fn1(c, False)
        except Inline:
            c.events[:] = []
            return fn1(c, True)

    def fn1(c, inline):
        if inline:
            s = summ_sess(c, True)
        elif op == "addsub" and cls is None and prop == "value":
            s = addsub_sess(c, rm is None)
        else:
            s = resize_sess(c, prop == "warn") if rm else (Sess(c) if prop == "value" else resize_sess(c))
        a_fmt = s.pfmt("a")
        b_fmt = s.pfmt("b") if binary else None
        r_fmt = s.pfmt("r") if rm else None
        rnd_, sat_ = modes(s, rm, sm) if rm else (None, None)
        wide = None if cls is None else cls == "WideFix"
        a, na = s.data("a", *s.fields(a_fmt), form=form, K=K, wide=wide)
        nb = [None] * K
        if binary:
            b, nb = s.data("b", *s.fields(b_fmt), form=form, K=K, wide=wide)
        sel = None
        fmtfn = f"cl_fix_{op}_fmt"
        fargs = [a_fmt] + ([b_fmt] if binary else [])
        if cls is not None and not wide:
            # the object API covers narrow formats as long as the intermediate result is narrow too
            m0 = s.call(s.api(fmtfn), fargs)
            if s.is_wide(*s.fields(m0)):
                return
            if rm:
                rS, rI, rF = s.fields(r_fmt)
                if s.is_wide(rS, rI, rF):
                    return
                x = s.call(s.api("cl_fix_round_fmt"), [m0, c.lin(rF), rnd_])
                if s.is_wide(*s.fields(x)):
                    return
        tail = [r_fmt, rnd_, sat_] if rm else []
        if op == "addsub":
            if addarg == "arr":
                sel = [i % 2 == 0 for i in range(K)]
                if K == 1:
                    sel = [c.choose(2) == 0]
                ad = A.Arr(list(sel), "b", 1, tag="input:add")
            else:
                sel = [addarg] * K
                ad = addarg
        if cls is None:
            args = [a, a_fmt] + ([b, b_fmt] if binary else []) + ([ad] if op == "addsub" else []) + tail
            r = s.call(s.api(f"cl_fix_{op}"), args)
        else:
            x = s.fix(cls, a, a_fmt)
            args = []
            if binary:
                args.append(s.fix(cls, b, b_fmt))
            if op == "addsub":
                args.append(ad)
            f = s.I.getattr(x, op)
            rr = s.call(f, args + tail)
            r = s.I.getattr(rr, "_data")
            if prop == "repr" and rm is None:
                m0 = s.call(s.api(fmtfn), fargs)
                chk_same_fmt(s, s.I.getattr(rr, "_fmt"), m0, f"{cls}.{op}")
        res_fmt = r_fmt if rm else s.call(s.api(fmtfn), fargs)
        rS, rI, rF = s.fields(res_fmt)

        def each(g, i):
            aF = v("aF")
            bF = v("bF") if binary else None
            mF = mid_F(s, op, aF, bF)
            o = op
            if op == "addsub":
                o = "add" if sel[i] else "sub"
            m = exact_int(s, o, na[i], aF, nb[i], bF, mF)
            if rm is None:
                s.same(g, c.norm(m).shift(c.lin(c.lin(rF) - c.lin(mF))), f"{op}: result differs from the exact result")
            else:
                if op == "addsub" and cls is None:
                    want = uf_resized(s, c.norm(m).shift(-c.lin(mF)), res_fmt, rnd_, sat_)
                    if want is not None:
                        s.same(g, want, f"{op}: result differs from the exact result rounded and saturated")
                        return
                if getattr(s, "hits", 0):
                    want = uf_resize(s, c.norm(m).shift(-c.lin(mF)), mF, res_fmt, rnd_, sat_)
                else:
                    mid = s.call(s.api(fmtfn), fargs)
                    want = resized(s, m, mF, mid, res_fmt, rnd_, sat_)
                s.same(g, want, f"{op}({rm},{sm}): result differs from the exact result rounded and saturated")
        if prop == "warn":
            def rounded(i):
                aF, bF = v("aF"), (v("bF") if binary else None)
                mF = mid_F(s, op, aF, bF)
                o = ("add" if sel[i] else "sub") if op == "addsub" else op
                m = exact_int(s, o, na[i], aF, nb[i], bF, mF)
                return round_mid(s, m, mF, s.call(s.api(fmtfn), fargs), res_fmt, rnd_)
            if getattr(s, "hits", 0):
                def exact(i):
                    aF, bF = v("aF"), (v("bF") if binary else None)
                    mF = mid_F(s, op, aF, bF)
                    o = ("add" if sel[i] else "sub") if op == "addsub" else op
                    return c.norm(exact_int(s, o, na[i], aF, nb[i], bF, mF)).shift(-c.lin(mF))
                chk_log(s, [exact(i) for i in range(K)], res_fmt, rnd_, sat_)
                return
            w = warned(s)
            chk_warn(s, w, rm is not None, sat_, [lambda i=i: rounded(i) for i in range(K)], res_fmt, op)
            return
        if cls is not None and prop == "value":
            got = s.decode(r, rS, rI, rF, K=K, wide=wide, repr_check=False)
            for i, g in enumerate(got):
                each(g, i)
            return
        if cls is not None:
            post_obj(s, prop, r, res_fmt, form, K, wide)
            return
        post(s, prop, r, res_fmt, form, K, each, warn=True)
    return fn


def round_mid(s, m, mF, mid, r, rm):
    c = s.c
    rF = s.fields(r)[2]
    lo, hi = s.bounds(*s.fields(s.call(s.api("cl_fix_round_fmt"), [mid, rF, rm])))
    rF = s.fields(r)[2]
    return uf_round(c, m, c.lin(mF), rF, mkey(rm), lo, hi)


class Inline(Exception):
    """the resize summary does not describe this code: analyse in line"""


def chk_log(s, es, r, rm, sm, extra=False):
    """the exact results, and nothing else, are resized with the requested format and modes; that a resize
    warns exactly when it has to is the obligation on cl_fix_resize / saturate itself"""
    c = s.c
    if warned(s):
        raise Inline()
    want = list(es)
    for _, e, mid, rf, rk, sk in s.log:
        exactly = rm is None or (rk == mkey(rm) and sk == mkey(sm))
        if not exactly:
            if sk in ("None_s", "Sat_s"):
                continue        # cannot warn
            raise Inline()
        if rm is None and sk in ("None_s", "Sat_s"):
            continue
        if c.norm(e).is_zero() or c.is_zero(e) is True:
            continue                # zero lies in every format
        if not all(c.lin(x - y).is_const() and c.lin(x - y).c == 0 for x, y in zip(rf, s.fields(r))):
            raise Inline()
        for i, w in enumerate(want):
            d = c.norm(c.norm(w) - c.norm(e))
            if d.is_zero() or c.is_zero(d) is True:
                del want[i]
                break
        else:
            if not extra:
                raise Inline()
    if want and rm is not None:
        raise Inline()


def chk_warn(s, w, resized_, sat_, ms, r, op, spurious=True):
    """w: a warning was raised on this path; ms: thunks of the rounded values before saturation"""
    c = s.c
    out = False
    if resized_ and is_in(sat_, ("Warn_s", "SatWarn_s")):
        for f in ms:
            m = f()
            lo, hi = s.bounds(*s.fields(r))
            if not c.decide(c.norm(c.norm(hi) - c.norm(m))) or not c.decide(c.norm(c.norm(m) - c.norm(lo))):
                out = True
                break
    if w and not out and spurious:
        raise Finding(f"{op}: a warning is raised although every value is in range or no warning is requested", kind="warn")
    if out and not w:
        raise Finding(f"{op}: no warning although a value is out of range and a warning is requested", kind="warn")


def chk_same_fmt(s, f, g, what):
    for x, y, n in zip(s.fields(f), s.fields(g), "SIF"):
        if not s.c.lin_eq0(s.c.lin(x - y)):
            raise Finding(f"{what}: result format field {n} is not the one of the format function", kind="fmt")


SHIFT_RM = [("Trunc_s", "None_s"), ("NonSymPos_s", "Sat_s"), ("ConvEven_s", "Warn_s")]


def shift_ob(form="arr", K=1, rm=None, sm=None, cls=None, prop="value", nshift=1, perm=None):
    """nshift = 0: python int shift amount; 1/2: array of shift amounts, one per element"""
    def fn(c):
        try:
            return fn1(c, False)
        except Inline:
            c.events[:] = []
            return fn1(c, True)

    def fn1(c, inline):
        s = summ_sess(c, True) if inline else resize_sess(c, prop == "warn") if rm else (Sess(c) if prop == "value" else resize_sess(c))
        a_fmt = s.pfmt("a")
        r_fmt = s.pfmt("r") if rm else None
        rnd_, sat_ = modes(s, rm, sm) if rm else (None, None)
        wide = None if cls is None else cls == "WideFix"
        a, na = s.data("a", *s.fields(a_fmt), form=form, K=K, wide=wide)
        n0, n1 = c.lin(v("n0")), c.lin(v("n1"))
        if nshift == 0:
            sh, shs = n0, [n0] * K
        else:
            if perm:
                # n0 <= n1 <= n2 in the order given by perm
                ns = [n0, n1, c.lin(v("n2"))]
                shs = [ns[i] for i in perm]
            else:
                shs = [n0, n1][:K]
            sh = A.Arr(shs, "lin", ndof(form, K) if form in ("row", "col") else 1, tag="input:shift")
        mn, mx = (n0, c.lin(v("n2"))) if perm else (n0, n0) if (nshift == 0 or K == 1) else ((n0, n1) if c.decide_lin(n1 - n0) else (n1, n0))
        if cls is not None and not wide:
            m0 = s.call(s.api("cl_fix_shift_fmt"), [a_fmt, mn, mx])
            if s.is_wide(*s.fields(m0)):
                return
            if rm:
                rS, rI, rF = s.fields(r_fmt)
                if s.is_wide(rS, rI, rF):
                    return
                x = s.call(s.api("cl_fix_round_fmt"), [m0, c.lin(rF), rnd_])
                if s.is_wide(*s.fields(x)):
                    return
        tail = [r_fmt, rnd_, sat_] if rm else []
        if cls is None:
            r = s.call(s.api("cl_fix_shift"), [a, a_fmt, sh] + (tail or [None]))
        else:
            x = s.fix(cls, a, a_fmt)
            rr = s.call(s.I.getattr(x, "shift"), [sh] + tail)
            r = s.I.getattr(rr, "_data")
        if rm:
            res_fmt = r_fmt
        else:
            res_fmt = s.call(s.api("cl_fix_shift_fmt"), [a_fmt, c.lin(mn), c.lin(mx)])
        rS, rI, rF = s.fields(res_fmt)

        def each(g, i):
            # a * 2^n as an integer with F - n fractional bits
            mF = c.lin(c.lin(v("aF")) - c.lin(shs[i]))
            if rm is None:
                s.same(g, c.norm(na[i]).shift(c.lin(c.lin(rF) - mF)), "shift: result differs from a*2^n")
            else:
                if getattr(s, "hits", 0):
                    want = uf_resize(s, c.norm(na[i]).shift(-c.lin(mF)), mF, res_fmt, rnd_, sat_)
                else:
                    mid = s.call(s.api("cl_fix_shift_fmt"), [a_fmt, c.lin(mn), c.lin(mx)])
                    want = resized(s, na[i], mF, mid, res_fmt, rnd_, sat_)
                s.same(g, want, f"shift({rm},{sm}): result differs from a*2^n rounded and saturated")
        if prop == "warn":
            def rounded(i):
                mF = c.lin(c.lin(v("aF")) - c.lin(shs[i]))
                mid = s.call(s.api("cl_fix_shift_fmt"), [a_fmt, c.lin(mn), c.lin(mx)])
                return round_mid(s, na[i], mF, mid, res_fmt, rnd_)
            if getattr(s, "hits", 0):
                chk_log(s, [c.norm(na[i]).shift(-c.lin(c.lin(v("aF")) - c.lin(shs[i]))) for i in range(K)], res_fmt, rnd_, sat_)
                return
            w = warned(s)
            chk_warn(s, w, rm is not None, sat_, [lambda i=i: rounded(i) for i in range(K)], res_fmt, "shift")
            return
        if cls is not None and prop == "value":
            got = s.decode(r, rS, rI, rF, K=K, wide=wide, repr_check=False)
            for i, g in enumerate(got):
                each(g, i)
            return
        if cls is not None:
            post_obj(s, prop, r, res_fmt, form, K, wide)
            return
        post(s, prop, r, res_fmt, form, K, each, warn=True)
    return fn


def resize_any(cls=None, form="arr", K=1, prop="value"):
    """resize with an arbitrary pair of modes: sat(round(a)) with the rounding and saturation of C03 / C05"""
    def fn(c):
        s = summ_sess(c, prop == "warn") if prop in ("value", "warn") else Sess(c)
        af, rf = s.pfmt("a"), s.pfmt("r")
        rm, sm = any_member(s, "FixRound", "rnd"), any_member(s, "FixSaturate", "sat")
        wide = None if cls is None else cls == "WideFix"
        a, ns = s.data("a", *s.fields(af), form=form, K=K, wide=wide)
        if cls == "NarrowFix":
            if s.is_wide(*s.fields(rf)) or s.is_wide(*s.fields(s.call(s.api("cl_fix_round_fmt"), [af, s.fields(rf)[2], rm]))):
                return
        if cls is None:
            r = s.call(s.api("cl_fix_resize"), [a, af, rf, rm, sm])
        else:
            x = s.fix(cls, a, af)
            rr = s.call(s.I.getattr(x, "resize"), [rf, rm, sm])
            r = s.I.getattr(rr, "_data")
            chk_same_fmt(s, s.I.getattr(rr, "_fmt"), rf, f"{cls}.resize")
        if prop == "warn":
            w = warned(s)
            chk_warn(s, w, True, sm, [lambda n=n: round_mid(s, n, v("aF"), af, rf, rm) for n in ns], rf, "resize")
            return
        if cls is not None and prop != "value":
            post_obj(s, prop, r, rf, form, K, wide)
            return

        def each(g, i):
            s.same(g, resized(s, ns[i], v("aF"), af, rf, rm, sm), "resize: result is not the rounded and saturated input")
        if cls is not None:
            for i, g in enumerate(s.decode(r, *s.fields(rf), K=K, wide=wide, repr_check=False)):
                each(g, i)
            return
        post(s, prop, r, rf, form, K, each, warn=True)
    return fn


def cells(P, names, narrow_names):
    for ns, Q0 in with_S(P, names):
        parts = [("", Q0)]
        for n in narrow_names:
            parts = [(nm + nn + ",", Q2) for nm, Q1 in parts for nn, Q2 in width_split(Q1, n)]
        for nm, Q in parts:
            yield ns + nm, Q


def ob_c05r(tier):
    """resize"""
    obs = []
    P = fmt_poly(["a", "r"])
    for nm, Q in cells(P, "ar", "a"):
        for form in ("arr", "sc", "zd"):
            obs.append(Ob(f"cl_fix_resize[any modes,{nm}{form}]", Q, resize_any(form=form), "en_cl_fix.cl_fix_resize", weight=2))
    for nm, Q in cells(P, "", "a"):
        obs.append(Ob(f"cl_fix_resize[any modes,{nm}2 elements]", Q, resize_any(K=2), "en_cl_fix.cl_fix_resize", weight=5))
    for cls in ("WideFix", "NarrowFix"):
        for nm, Q in cells(P, "ar", ""):
            obs.append(Ob(f"{cls}.resize[any modes,{nm}]", narrow_if(cls, Q, "a"), resize_any(cls), f"{cls}.resize", weight=2))
    if tier != "quick":
        obs += ob_c06r(tier)
    return obs


def ob_c07(tier):
    obs = []
    P2, P1 = fmt_poly(["a", "b"]), fmt_poly(["a"])
    P2r, P1r = fmt_poly(["a", "b", "r"]), fmt_poly(["a", "r"])
    # full precision
    for op in ("add", "sub", "mult"):
        for nm, Q in cells(P2, "ab", "ab"):
            obs.append(Ob(f"cl_fix_{op}[exact,{nm}]", Q, arith(op), f"en_cl_fix.cl_fix_{op}"))
            obs.append(Ob(f"cl_fix_{op}[exact,{nm}scalar]", Q, arith(op, "sc"), f"en_cl_fix.cl_fix_{op}"))
        for nm, Q in cells(P2, "ab", ""):
            for cls in ("WideFix", "NarrowFix"):
                obs.append(Ob(f"{cls}.{op}[exact,{nm}]", narrow_if(cls, Q, "ab"), arith(op, cls=cls), f"{cls}.{op}"))
    for nm, Q in cells(P2, "ab", "ab"):
        for ad in (True, False, "arr"):
            obs.append(Ob(f"cl_fix_addsub[exact,{nm}add={ad}]", Q, arith("addsub", addarg=ad), "en_cl_fix.cl_fix_addsub"))
    for nm, Q in cells(P2, "ab", ""):
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.addsub[exact,{nm}]", narrow_if(cls, Q, "ab"), arith("addsub", cls=cls, addarg="arr"), f"{cls}.addsub"))
    for op in ("neg", "abs"):
        for nm, Q in cells(P1, "a", "a"):
            obs.append(Ob(f"cl_fix_{op}[exact,{nm}]", Q, arith(op), f"en_cl_fix.cl_fix_{op}"))
            obs.append(Ob(f"cl_fix_{op}[exact,{nm}scalar]", Q, arith(op, "sc"), f"en_cl_fix.cl_fix_{op}"))
        for nm, Q in cells(P1, "a", ""):
            for cls in ("WideFix", "NarrowFix"):
                obs.append(Ob(f"{cls}.{op}[exact,{nm}]", narrow_if(cls, Q, "a"), arith(op, cls=cls), f"{cls}.{op}"))
    Ps, Psr = fmt_poly(["a"], ["n0", "n1"]), fmt_poly(["a", "r"], ["n0", "n1"])
    for nm, Q in cells(Ps, "a", "a"):
        obs.append(Ob(f"cl_fix_shift[exact,{nm}]", Q, shift_ob(nshift=0), "en_cl_fix.cl_fix_shift"))
        obs.append(Ob(f"cl_fix_shift[exact,{nm}scalar]", Q, shift_ob("sc", nshift=0), "en_cl_fix.cl_fix_shift"))
        obs.append(Ob(f"cl_fix_shift[exact,{nm}per element]", Q, shift_ob(K=2, nshift=2), "en_cl_fix.cl_fix_shift"))
    for nm, Q in cells(Ps, "a", ""):
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.shift[exact,{nm}]", narrow_if(cls, Q, "a"), shift_ob(nshift=0, cls=cls), f"{cls}.shift"))
            obs.append(Ob(f"{cls}.shift[exact,{nm}per element]", narrow_if(cls, Q, "a"), shift_ob(K=2, nshift=2, cls=cls), f"{cls}.shift"))
    # three shifts, the extremes not at the ends of the array
    P3 = fmt_poly(["a"], ["n0", "n1", "n2"])
    P3 = P3.add(v("n1") - v("n0")).add(v("n2") - v("n1"))
    for perm, t in (((1, 2, 0), "largest in the middle"), ((1, 0, 2), "smallest in the middle")):
        for nm, Q in cells(P3, "", "a"):
            obs.append(Ob(f"cl_fix_shift[exact,{nm}per element, {t}]", Q, shift_ob(K=3, nshift=3, perm=perm), "en_cl_fix.cl_fix_shift", weight=3))
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.shift[exact,per element, {t}]", narrow_if(cls, P3, "a"), shift_ob(K=3, nshift=3, cls=cls, perm=perm), f"{cls}.shift", weight=3))
    # explicit result format, every rounding and saturation mode
    A_ = dict(rm="any", sm="any")
    for op in ("add", "sub", "mult"):
        for nm, Q in cells(P2r, "abr", "a"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_), f"en_cl_fix.cl_fix_{op}", weight=5))
        for nm, Q in cells(P2r, "abr", ""):
            for cls in ("WideFix", "NarrowFix"):
                obs.append(Ob(f"{cls}.{op}[any modes,{nm}]", narrow_if(cls, Q, "ab"), arith(op, cls=cls, **A_), f"{cls}.{op}", weight=3))
    for nm, Q in cells(P2r, "abr", "ab"):
        obs.append(Ob(f"cl_fix_addsub[any modes,{nm}]", Q, arith("addsub", addarg="arr", **A_), "en_cl_fix.cl_fix_addsub", weight=9))
    for nm, Q in cells(P2r, "abr", ""):
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.addsub[any modes,{nm}]", narrow_if(cls, Q, "ab"), arith("addsub", cls=cls, addarg="arr", **A_), f"{cls}.addsub", weight=3))
    for op in ("neg", "abs"):
        for nm, Q in cells(P1r, "ar", "a"):
            obs.append(Ob(f"cl_fix_{op}[any modes,{nm}]", Q, arith(op, **A_), f"en_cl_fix.cl_fix_{op}", weight=3))
        for nm, Q in cells(P1r, "ar", ""):
            for cls in ("WideFix", "NarrowFix"):
                obs.append(Ob(f"{cls}.{op}[any modes,{nm}]", narrow_if(cls, Q, "a"), arith(op, cls=cls, **A_), f"{cls}.{op}", weight=3))
    for nm, Q in cells(Psr, "ar", "a"):
        obs.append(Ob(f"cl_fix_shift[any modes,{nm}]", Q, shift_ob(nshift=0, **A_), "en_cl_fix.cl_fix_shift", weight=3))
        obs.append(Ob(f"cl_fix_shift[any modes,{nm}per element]", Q, shift_ob(K=2, nshift=2, **A_), "en_cl_fix.cl_fix_shift", weight=3))
    for nm, Q in cells(Psr, "ar", ""):
        for cls in ("WideFix", "NarrowFix"):
            obs.append(Ob(f"{cls}.shift[any modes,{nm}]", narrow_if(cls, Q, "a"), shift_ob(nshift=0, cls=cls, **A_), f"{cls}.shift", weight=3))
            obs.append(Ob(f"{cls}.shift[any modes,{nm}per element]", narrow_if(cls, Q, "a"), shift_ob(K=2, nshift=2, cls=cls, **A_), f"{cls}.shift", weight=3))
    # no cross-talk between elements
    for op in ("add", "sub", "mult"):
        obs.append(Ob(f"WideFix.{op}[exact,2 elements]", P2, arith(op, K=2, cls="WideFix"), f"WideFix.{op}", weight=3))
        obs.append(Ob(f"NarrowFix.{op}[exact,2 elements]", narrow_if("NarrowFix", P2, "ab"), arith(op, K=2, cls="NarrowFix"), f"NarrowFix.{op}", weight=3))
    return obs


def narrow_if(cls, P, names):
    if cls == "NarrowFix":
        for n in names:
            P = width_split(P, n)[0][1]
    return P


if __name__ == "__main__":
    import sys
    from ob import run_all, print_res
    import collections, time
    g = globals()["ob_" + sys.argv[1]]
    obs = [o for o in g("quick") if len(sys.argv) < 3 or sys.argv[2] in o.name]
    t = time.time()
    rs = run_all(obs, "quick", jobs=1 if len(sys.argv) > 3 else 8)
    for r in sorted(rs, key=lambda r: -r["wall"])[:6]:
        print_res(r)
    print("----")
    for r in rs:
        if r["verdict"] != "proved":
            print_res(r)
    print(collections.Counter(r["verdict"] for r in rs), sum(r["paths"] for r in rs), round(time.time() - t, 1))
