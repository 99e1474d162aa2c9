"""Compositional summaries: rounding and saturation of one value as (interpreted-on-demand) symbols.

The summaries stand for NarrowFix/WideFix.round and .saturate; that these methods meet the definition for
every input is what the obligations of C03 and C05 establish.  A summary is only applied when its
precondition (data inside its format, correct result format) is established on the cell; otherwise the
body is analysed in line."""
from fractions import Fraction
from pylib import *
import pyabs as A


# ------------------------------------------------------------------ concrete definitions (for witnesses)
def round_val(x, rF, mode):
    """real x (Fraction) -> integer with rF fractional bits"""
    y = x * Fraction(2) ** rF
    q = y.numerator // y.denominator
    r = y - q
    if mode == "Trunc_s" or r == 0:
        return q
    h = Fraction(1, 2)
    if r != h:
        return q + (r > h)
    up = {"NonSymPos_s": True, "NonSymNeg_s": False, "SymInf_s": q >= 0, "SymZero_s": q < 0,
          "ConvEven_s": q % 2 == 1, "ConvOdd_s": q % 2 == 0}[mode]
    return q + (1 if up else 0)


def sat_val(n, S, W, clip):
    lo, hi = (-(2 ** W) if S else 0), 2 ** W - 1
    if clip:
        return min(max(n, lo), hi)
    return lo + (n - lo) % (hi - lo + 1)


def _fl(x):
    return int(x) if Fraction(x).denominator == 1 else x


def _find(c, kind, mode, e, pars):
    for k, md, e2, p2, sym in c.uf:
        if k != kind or md != mode:
            continue
        if any(not (c.lin(a - b).is_const() and c.lin(a - b).c == 0) and c.P.rng(c.lin(a - b)) != (0, 0)
               for a, b in zip(pars, p2)):
            continue
        d = c.norm(c.norm(e) - c.norm(e2))
        if d.is_zero() or c.is_zero(d) is True:
            return c.norm(Expr.var(sym))
    return None


def uf_round(c, x, F, rF, mode, lo, hi):
    """x: integer with F fractional bits, rounded to rF fractional bits; lo, hi: integer bounds of the result"""
    F, rF = c.lin(F), c.lin(rF)
    real = c.norm(c.norm(x).shift(-F))
    y = _find(c, "round", mode, real, (rF,))
    if y is not None:
        return y
    if not c.decide_lin(c.lin(F) - c.lin(rF) - 1):
        return c.norm(c.norm(x).shift(c.lin(c.lin(rF) - c.lin(F))))
    real, rF = c.norm(real), c.lin(rF)
    y = _find(c, "round", mode, real, (rF,))
    if y is not None:
        return y
    v_ = c.new_var("rnd", c.norm(lo), c.norm(hi))
    c.uf.append(("round", mode, real, (rF,), v_))
    c.deps.append((v_, "uf", (lambda x, p, mode=mode: round_val(x, int(p[0]), first(c, mode)), real, (rF,))))
    c._nonempty(v_)
    return c.norm(Expr.var(v_))


def uf_sat(c, n, S, I, F, clip):
    n = c.norm(n)
    W = c.lin(I + F)
    S = c.lin(S)
    y = _find(c, "sat", clip, n, (S, W))
    if y is not None:
        return y
    signed = not c.lin_eq0(S)
    W = c.lin(W)
    lo = -Expr.pow2(W) if signed else Expr()
    hi = Expr.pow2(W) - 1
    n = c.norm(n)
    if c.ge0(c.norm(hi - n)) is True and c.ge0(c.norm(n - lo)) is True:
        return n
    v_ = c.new_var("sat", c.norm(lo), c.norm(hi))
    c.uf.append(("sat", clip, n, (c.lin(S), W), v_))
    c.deps.append((v_, "uf", (lambda x, p, clip=clip: sat_val(int(x) if x.denominator == 1 else x, int(p[0]), int(p[1]), clip),
                              n, (c.lin(S), W))))
    c._nonempty(v_)
    return c.norm(Expr.var(v_))


def first(c, mode):
    """a concrete mode for witnesses"""
    return c.symmem[mode].opts[0].name if mode in getattr(c, "symmem", {}) else mode


def any_member(s, cls, key):
    """an arbitrary member of an enumeration of the model"""
    e = s.t.ns[cls]
    ms = []
    for m in e.ns.values():
        if isinstance(m, A.EnumMem) and m not in ms:
            ms.append(m)
    x = A.SymMem(s.I, ms, key)
    s.c.symmem = getattr(s.c, "symmem", {})
    s.c.symmem[key] = x
    return x


def mkey(m):
    return m.key if isinstance(m, A.SymMem) else m.name


def is_in(m, names):
    return m.among(names) if isinstance(m, A.SymMem) else m.name in names


# ------------------------------------------------------------------ code side
def _obj(s, I, o, wide):
    """[(int Expr)], fmt fields, nd of a NarrowFix / WideFix instance, or None"""
    c = I.c
    d, f = o.attrs.get("_data"), o.attrs.get("_fmt")
    if not isinstance(d, A.Arr) or not isinstance(f, A.Inst):
        return None
    if d.dtype != ("O" if wide else "f8") or d.nd > 1 and not isinstance(d.nd, A.Nd):
        return None
    S, Ii, F = (c.lin(Lin.of(f.attrs[k])) for k in "SIF")
    out = []
    for i in range(len(d.els)):
        x = I.el_scalar(d, i)
        if not isinstance(x, (int, Lin, A.Sc)) or isinstance(x, bool):
            return None
        ty, e = I.num(x)
        if wide and ty != "int":
            return None
        n = c.norm(e if wide else e.shift(F))
        ip = c._split_terms(n)
        n = c.norm(n)
        if not ip[1].is_zero():
            return None
        S, W = c.lin(S), c.lin(Ii + F)
        lo = Expr()
        if c.P.rng(S) == (1, 1):
            lo = -Expr.pow2(W)
        elif c.P.rng(S) != (0, 0):
            return None
        if not c.decide(c.norm(Expr.pow2(W) - 1 - n)) or not c.decide(c.norm(c.norm(n) - lo)):
            return None
        out.append(n)
    return [c.norm(x) for x in out], (c.lin(S), c.lin(Ii), c.lin(F)), d.nd


def _mk(s, I, cls, els, r_fmt, wide, nd):
    c = I.c
    rF = c.lin(Lin.of(r_fmt.attrs["F"]))
    if wide:
        arr = A.Arr([I.mk("int", c.norm(e)) for e in els], "O", nd)
    else:
        arr = A.Arr([c.norm(c.norm(e).shift(-rF)) for e in els], "f8", nd)
    return I.call(cls, [arr, r_fmt], {})


def _args(I, f, args, kw):
    try:
        loc = I.bind(f, list(args), dict(kw))
    except A.PyRaise:
        return None
    return loc


def _getargs(I, f, args, kw, names):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    got = dict(zip(pos, args))
    got.update(kw)
    vals = [got[pos[0]]]
    defs = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults)) if f.defaults else {}
    if len(pos) != 3:
        return None
    for n in pos[1:]:
        if n in got:
            vals.append(got[n])
        elif n in defs:
            vals.append(defs[n])
        else:
            return None
    return vals


def summaries(holder, warn=False):
    """holder: list that receives the Sess (created after the interpreter)"""
    def rnd(wide):
        def fn(I, f, args, kw):
            s = holder[0]
            if I.phase != "run":
                return NotImplemented
            got = _getargs(I, f, args, kw, 2)
            if not got:
                return NotImplemented
            self_, r_fmt, mode = got
            if not (isinstance(self_, A.Inst) and isinstance(r_fmt, A.Inst) and isinstance(mode, A.EnumMem)):
                return NotImplemented
            o = _obj(s, I, self_, wide)
            if o is None:
                return NotImplemented
            els, (S, Ii, F), nd = o
            c = I.c
            want = I.call(I.getattr(self_.attrs["_fmt"].cls, "for_round"), [self_.attrs["_fmt"], c.lin(Lin.of(r_fmt.attrs["F"])), mode], {})
            for k in "SIF":
                if not c.lin_eq0(c.lin(Lin.of(want.attrs[k]) - Lin.of(r_fmt.attrs[k]))):
                    return NotImplemented
            rS, rI, rF = s.fields(r_fmt)
            if not wide and not c.decide_lin(NARROW - (rS + rI + rF)):
                return NotImplemented
            out = []
            for e in els:
                lo, hi = s.bounds(*s.fields(r_fmt))
                out.append(uf_round(c, e, F, c.lin(rF), mkey(mode), lo, hi))
            return _mk(s, I, self_.cls, out, r_fmt, wide, nd)
        return fn

    def sat(wide):
        def fn(I, f, args, kw):
            s = holder[0]
            if I.phase != "run":
                return NotImplemented
            got = _getargs(I, f, args, kw, 2)
            if not got:
                return NotImplemented
            self_, r_fmt, mode = got
            if not (isinstance(self_, A.Inst) and isinstance(r_fmt, A.Inst) and isinstance(mode, A.EnumMem)):
                return NotImplemented
            o = _obj(s, I, self_, wide)
            if o is None:
                return NotImplemented
            els, (S, Ii, F), nd = o
            c = I.c
            rS, rI, rF = s.fields(r_fmt)
            if not c.lin_eq0(c.lin(rF - F)):
                return NotImplemented
            if not wide and not c.decide_lin(NARROW - (rS + rI + rF)):
                return NotImplemented
            if warn:
                if is_in(mode, ("Warn_s", "SatWarn_s")):
                    lo, hi = s.bounds(*s.fields(r_fmt))
                    for e in els:
                        if not c.decide(c.norm(c.norm(hi) - c.norm(e))) or not c.decide(c.norm(c.norm(e) - c.norm(lo))):
                            c.events.append(("warn", "summary"))
                            break
            out = []
            for e in els:
                rS, rI, rF = s.fields(r_fmt)
                out.append(uf_sat(c, e, rS, rI, rF, is_in(mode, ("Sat_s", "SatWarn_s"))))
            return _mk(s, I, self_.cls, out, r_fmt, wide, nd)
        return fn
    return {("narrow_fix", "NarrowFix.round"): rnd(False), ("wide_fix", "WideFix.round"): rnd(True),
            ("narrow_fix", "NarrowFix.saturate"): sat(False), ("wide_fix", "WideFix.saturate"): sat(True)}


def summ_sess(c, warn=False):
    h = []
    s = Sess(c, summaries(h, warn))
    h.append(s)
    return s


def _data_ints(s, I, x, f):
    """data operand in the representation of format f -> (ints, nd) or None"""
    c = I.c
    S, Ii, F = s.fields(f)
    wide = s.is_wide(S, Ii, F)
    if isinstance(x, A.Arr):
        if x.nd not in (0, 1) or x.dtype != ("O" if wide else "f8"):
            return None
        vals, nd = [I.el_scalar(x, i) for i in range(len(x.els))], x.nd
    elif isinstance(x, A.Sc):
        vals, nd = [x], 0
    else:
        return None
    out = []
    for y in vals:
        ty, e = I.num(y)
        if (ty == "int") != wide:
            return None
        n = c.norm(e if wide else e.shift(c.lin(F)))
        lo, hi = s.bounds(*s.fields(f))
        if not c.decide(c.norm(c.norm(hi) - n)) or not c.decide(c.norm(c.norm(n) - c.norm(lo))):
            return None
        out.append(n)
    return out, nd


def uf_resized(s, e, r_fmt, rm, sm):
    """the real value e brought into r_fmt: symbol (existing one only, unless bounds are wanted)"""
    c = s.c
    return _find(c, "resized", (mkey(rm), mkey(sm)), c.norm(e), s.fields(r_fmt))


def addsub_summaries(holder, exact):
    def mk(op):
        def fn(I, f, args, kw):
            s = holder[0]
            c = I.c
            if I.phase != "run":
                return NotImplemented
            names = [x.arg for x in f.node.args.args]
            if len(names) != 7:
                return NotImplemented
            got = dict(zip(names, args))
            got.update(kw)
            for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
                got.setdefault(n, d)
            a, af, b, bf, rf, rm, sm = [got.get(n) for n in names]
            if not all(isinstance(x, A.Inst) for x in (af, bf, rf)) or not all(isinstance(x, A.EnumMem) for x in (rm, sm)):
                return NotImplemented
            da, db = _data_ints(s, I, a, af), _data_ints(s, I, b, bf)
            if da is None or db is None or len(da[0]) != len(db[0]):
                return NotImplemented
            out = []
            for x, y in zip(da[0], db[0]):
                aF, bF = s.fields(af)[2], s.fields(bf)[2]
                p, q = c.norm(x).shift(-aF), c.norm(y).shift(-bF)
                e = c.norm(p + q if op == "add" else p - q)
                rS, rI, rF = s.fields(rf)
                if (exact or not isinstance(rm, A.SymMem)) and c.decide_lin(c.lin(rF - aF)) and c.decide_lin(c.lin(c.lin(rF) - c.lin(bF))):
                    lo, hi = s.bounds(*s.fields(rf))
                    m = c.norm(c.norm(e).shift(c.lin(rF)))
                    if c.decide(c.norm(c.norm(hi) - m)) and c.decide(c.norm(c.norm(m) - c.norm(lo))):
                        out.append(c.norm(m))
                        continue
                e = c.norm(e)
                key = (mkey(rm), mkey(sm))
                g = _find(c, "resized", key, e, s.fields(rf))
                if g is None:
                    lo, hi = s.bounds(*s.fields(rf))
                    v_ = c.new_var("rsz", c.norm(lo), c.norm(hi))
                    pars = s.fields(rf)
                    c.uf.append(("resized", key, e, pars, v_))

                    def ev(x, p, key=key):
                        S_, I_, F_ = (int(z) for z in p)
                        m = round_val(x, F_, first(c, key[0]))
                        return sat_val(m, S_, I_ + F_, first(c, key[1]) in ("Sat_s", "SatWarn_s"))
                    c.deps.append((v_, "uf", (ev, e, pars)))
                    c._nonempty(v_)
                    g = c.norm(Expr.var(v_))
                out.append(g)
            rS, rI, rF = s.fields(rf)
            nd = max(da[1], db[1])
            if s.is_wide(rS, rI, rF):
                return A.Arr([I.mk("int", c.norm(x)) for x in out], "O", nd)
            rF = s.fields(rf)[2]
            return A.Arr([c.norm(c.norm(x).shift(-rF)) for x in out], "f8", nd)
        return fn
    return {("en_cl_fix", "cl_fix_add"): mk("add"), ("en_cl_fix", "cl_fix_sub"): mk("sub")}


def addsub_sess(c, exact):
    h = []
    t = summaries(h)
    t.update(resize_summaries(h))
    t.update(addsub_summaries(h, exact))
    s = Sess(c, t)
    s.log, s.hits = [], 0
    h.append(s)
    return s


# ------------------------------------------------------------------ resize (= round, then saturate / wrap)
def uf_resize(s, e, mF, r_fmt, rm, sm):
    """the real value e (a multiple of 2^-mF) rounded and saturated into r_fmt, as an integer"""
    c = s.c
    key = (mkey(rm), mkey(sm))
    g = _find(c, "resized", key, c.norm(e), s.fields(r_fmt))
    if g is not None:
        return g
    rS, rI, rF = s.fields(r_fmt)
    if c.decide_lin(c.lin(rF - c.lin(mF))):
        m = c.norm(c.norm(e).shift(c.lin(rF)))
        lo, hi = s.bounds(*s.fields(r_fmt))
        m = c.norm(m)
        if c.ge0(c.norm(hi) - m) is True and c.ge0(m - c.norm(lo)) is True:
            return m
    e = c.norm(e)
    lo, hi = s.bounds(*s.fields(r_fmt))
    g = _find(c, "resized", key, e, s.fields(r_fmt))
    if g is not None:
        return g
    v_ = c.new_var("rsz", c.norm(lo), c.norm(hi))
    pars = s.fields(r_fmt)
    e = c.norm(e)
    c.uf.append(("resized", key, e, pars, v_))

    def ev(x, p, key=key):
        S_, I_, F_ = (int(z) for z in p)
        m = round_val(x, F_, first(c, key[0]))
        return sat_val(m, S_, I_ + F_, first(c, key[1]) in ("Sat_s", "SatWarn_s"))
    c.deps.append((v_, "uf", (ev, e, pars)))
    c._nonempty(v_)
    return c.norm(Expr.var(v_))


def resize_summaries(holder):
    def names(f, args, kw, n):
        ns = [x.arg for x in f.node.args.args]
        if len(ns) != n:
            return None
        got = dict(zip(ns, args))
        got.update(kw)
        for k, d in zip(ns[len(ns) - len(f.defaults):], f.defaults):
            got.setdefault(k, d)
        if any(k not in got for k in ns):
            return None
        return [got[k] for k in ns]

    def api(I, f, args, kw):
        s = holder[0]
        c = I.c
        if I.phase != "run":
            return NotImplemented
        g = names(f, args, kw, 5)
        if g is None:
            return NotImplemented
        a, af, rf, rm, sm = g
        if not (isinstance(af, A.Inst) and isinstance(rf, A.Inst) and isinstance(rm, A.EnumMem) and isinstance(sm, A.EnumMem)):
            return NotImplemented
        d = _data_ints(s, I, a, af)
        if d is None:
            return NotImplemented
        out = []
        for n in d[0]:
            aF = s.fields(af)[2]
            e = c.norm(c.norm(n).shift(-aF))
            s.log.append(("resize", e, s.fields(af), s.fields(rf), mkey(rm), mkey(sm)))
            out.append(uf_resize(s, e, s.fields(af)[2], rf, rm, sm))
        s.hits += 1
        rS, rI, rF = s.fields(rf)
        nd = d[1]
        if s.is_wide(rS, rI, rF):
            return A.Arr([I.mk("int", c.norm(x)) for x in out], "O", nd)
        rF = s.fields(rf)[2]
        return A.Arr([c.norm(c.norm(x).shift(-rF)) for x in out], "f8", nd)

    def meth(wide):
        def fn(I, f, args, kw):
            s = holder[0]
            c = I.c
            if I.phase != "run":
                return NotImplemented
            g = names(f, args, kw, 4)
            if g is None:
                return NotImplemented
            x, rf, rm, sm = g
            if not (isinstance(x, A.Inst) and isinstance(rf, A.Inst) and isinstance(rm, A.EnumMem) and isinstance(sm, A.EnumMem)):
                return NotImplemented
            o = _obj(s, I, x, wide)
            if o is None:
                return NotImplemented
            els, (S, Ii, F), nd = o
            if not wide:
                # the method itself only covers narrow intermediate formats
                if s.is_wide(*s.fields(rf)):
                    return NotImplemented
                mid = I.call(I.getattr(x.attrs["_fmt"].cls, "for_round"), [x.attrs["_fmt"], s.fields(rf)[2], rm], {})
                if s.is_wide(*s.fields(mid)):
                    return NotImplemented
            out = []
            for n in els:
                F = c.lin(F)
                e = c.norm(c.norm(n).shift(-F))
                s.log.append(("resize", e, (c.lin(S), c.lin(Ii), c.lin(F)), s.fields(rf), mkey(rm), mkey(sm)))
                out.append(uf_resize(s, e, c.lin(F), rf, rm, sm))
            s.hits += 1
            return _mk(s, I, x.cls, out, rf, wide, nd)
        return fn
    return {("en_cl_fix", "cl_fix_resize"): api, ("narrow_fix", "NarrowFix.resize"): meth(False),
            ("wide_fix", "WideFix.resize"): meth(True)}


def resize_sess(c, warn=False):
    h = []
    t = summaries(h, warn)
    t.update(resize_summaries(h))
    s = Sess(c, t)
    s.log, s.hits = [], 0
    h.append(s)
    return s
