"""Transfer functions for numpy / standard library names used by the Python model."""
import ast
from fractions import Fraction
from poly import Lin
from num import Expr, Undecided
import pyabs as A

ADD, SUB, MUL, DIV, FDIV, MOD = ast.Add(), ast.Sub(), ast.Mult(), ast.Div(), ast.FloorDiv(), ast.Mod()
CMP = {"equal": ast.Eq(), "not_equal": ast.NotEq(), "less": ast.Lt(), "less_equal": ast.LtE(),
       "greater": ast.Gt(), "greater_equal": ast.GtE()}
BIN = {"add": ADD, "subtract": SUB, "multiply": MUL, "divide": DIV, "true_divide": DIV, "floor_divide": FDIV,
       "mod": MOD, "remainder": MOD, "left_shift": ast.LShift(), "right_shift": ast.RShift(),
       "bitwise_and": ast.BitAnd(), "bitwise_or": ast.BitOr(), "bitwise_xor": ast.BitXor(), "power": ast.Pow()}


def arrayish(I, v):
    if isinstance(v, A.Arr):
        return v
    if isinstance(v, (A.PyList, tuple)) or I.isnumeric(v):
        return I.to_arr(v)
    if isinstance(v, (A.Inst, A.EnumMem)) or v is None:
        return I.to_arr(v)
    if isinstance(v, A.RangeV):
        return I.to_arr(A.PyList(v.items(I)))
    I.un("array conversion of " + type(v).__name__)


def ew1(I, v, fn, name):
    """element-wise unary ufunc; fn(scalar, dtype) -> scalar result; keeps dtype unless fn decides."""
    a = arrayish(I, v)
    out = [fn(I.el_scalar(a, i), a.dtype) for i in range(len(a.els))]
    dts = []
    for x in out:
        dts.append("O" if a.dtype == "O" else I.dt_of(x))
    dt = I.common(dts) if dts else a.dtype
    return I.wrap(out, dt, a.nd)


def rnd_fn(kind):
    def f(I, x, dt):
        c = I.c
        if isinstance(x, (A.BoolNp, bool)):
            return x
        if isinstance(x, (int, Lin)):
            return x
        if isinstance(x, A.Special):
            I.un("rounding of a non-finite value")
        if not isinstance(x, A.Sc):
            I.err("TypeError", "floor of non-number")
        if x.ty in ("int", "i8", "u8"):
            return x
        e = c.norm(x.e)
        if kind == "floor":
            r = c.floor1(e)
        elif kind == "ceil":
            r = -c.floor1(-e)
        elif kind == "trunc":
            r = I.trunc(e)
        else:       # rint: half to even
            r = rint(I, e)
        if dt == "O":
            return I.mk("int", r)
        return A.Sc("f8", c.fl(c.norm(r), I.loc()))
    return f


def rint(I, e):
    c = I.c
    f = c.floor1(c.norm(e))
    d = c.norm(c.norm(e) - f)
    half = Expr.const(Fraction(1, 2))
    if c.eq0(c.norm(d - half)):
        h = c.floor1(c.norm(f).shift(Lin(-1)))
        odd = c.norm(c.norm(f) - h * 2)
        return c.norm(c.norm(f) + odd)
    if c.decide(c.norm(d - half)):
        return c.norm(f + 1)
    return c.norm(f)


def uf1(kind):
    g = rnd_fn(kind)

    def f(I, a, k):
        if k and set(k) - {"decimals"}:
            I.un("keyword of np." + kind)
        v = a[0]
        if kind == "rint" and len(a) > 1 or "decimals" in k:
            I.un("decimals")
        return ew1(I, v, lambda x, dt: g(I, x, dt), kind)
    return f


def np_abs(I, a, k):
    def f(x, dt):
        if isinstance(x, (A.BoolNp, bool)):
            return x
        z = I.sc_compare("GtE", x, 0)
        return x if z else I.neg(x)
    return ew1(I, a[0], f, "abs")


def np_sign(I, a, k):
    def f(x, dt):
        if I.truth(I.sc_compare("Gt", x, 0)):
            r = 1
        elif I.truth(I.sc_compare("Lt", x, 0)):
            r = -1
        else:
            r = 0
        return A.Sc(dt, r) if dt in ("f8", "i8") else r
    return ew1(I, a[0], f, "sign")


def np_cmp(op):
    def f(I, a, k):
        if k:
            I.un("ufunc keyword")
        r = I.compare(op, I.to_arr(a[0]) if isinstance(a[0], (A.PyList, tuple)) else a[0],
                      I.to_arr(a[1]) if isinstance(a[1], (A.PyList, tuple)) else a[1])
        return A.BoolNp(r) if isinstance(r, bool) else r
    return f


def np_bin(op):
    def f(I, a, k):
        out = k.pop("out", None)
        if k:
            I.un("ufunc keyword")
        x, y = a[:2]
        if len(a) > 2:
            out = a[2]
        if not isinstance(x, A.Arr):
            x = arrayish(I, x) if not isinstance(x, A.Inst) else x
        r = I.binop(op, x, y)
        if out is not None:
            if not isinstance(out, A.Arr):
                I.un("out=")
            I.mutate(out, "out= argument")
            ra = arrayish(I, r)
            out.buf.els[:] = [I.cast_el(e, ra.dtype, out.dtype) for e in ra.els]
            return out
        return r
    return f


def reduce_bool(I, v, isany):
    if isinstance(v, A.BoolNp) or isinstance(v, bool):
        return A.BoolNp(I.truth(v))
    a = arrayish(I, v)
    r = not isany
    for i in range(len(a.els)):
        t = I.truth(I.el_scalar(a, i))
        if t == isany:
            r = isany
            break
    return A.BoolNp(r)


def np_any(I, a, k):
    if k or len(a) > 1:
        I.un("axis")
    return reduce_bool(I, a[0], True)


def np_all(I, a, k):
    if k or len(a) > 1:
        I.un("axis")
    return reduce_bool(I, a[0], False)


def reduce_ext(I, v, ismax):
    a = arrayish(I, v)
    if not a.els:
        I.err("ValueError", "reduction of an empty array")
    b = I.el_scalar(a, 0)
    for i in range(1, len(a.els)):
        x = I.el_scalar(a, i)
        if I.truth(I.compare(ast.Gt() if ismax else ast.Lt(), x, b)):
            b = x
    return b


def np_ext(ismax):
    def f(I, a, k):
        if k or len(a) > 1:
            I.un("axis")
        return reduce_ext(I, a[0], ismax)
    return f


def np_pairext(ismax):
    def f(I, a, k):
        if k:
            I.un("ufunc keyword")
        dt = I.result_dtype([x if not isinstance(x, (tuple, A.PyList)) else I.to_arr(x) for x in a[:2]])
        xs = [arrayish(I, x) for x in a[:2]]
        xs, nd = A.bca(I, xs)
        n = max(len(x.els) for x in xs)
        out = []
        for i in range(n):
            p, q = (I.el_scalar(x, i if len(x.els) > 1 else 0) for x in xs)
            t = I.truth(I.sc_compare("GtE" if ismax else "LtE", p, q))
            out.append(p if t else q)
        if dt == "lin":
            dt = I.common([I.dt_of(x) for x in out])
        return I.wrap([conv(I, x, dt) for x in out], dt, nd)
    return f


def conv(I, x, dt):
    """scalar -> scalar of numpy dtype dt"""
    if dt == "O" or dt == "lin":
        return x
    if dt == "b":
        return x
    if isinstance(x, Lin):
        return x
    ty, e = I.num(x)
    if dt == "f8":
        return A.Sc("f8", e if ty in ("f8", "float") else I.c.fl(e, I.loc()))
    return x


def np_where(I, a, k):
    if len(a) != 3:
        I.un("np.where with one argument")
    cnd, x, y = a
    c = arrayish(I, cnd)
    dt = I.result_dtype([v if not isinstance(v, (tuple, A.PyList)) else I.to_arr(v) for v in (x, y)])
    xa, ya = arrayish(I, x), arrayish(I, y)
    (c, xa, ya), nd = A.bca(I, [c, xa, ya])
    n = max(len(v.els) for v in (c, xa, ya))
    out = []
    for i in range(n):
        t = I.truth(I.el_scalar(c, i if len(c.els) > 1 else 0))
        src = xa if t else ya
        out.append(I.cast_el(src.els[i if len(src.els) > 1 else 0], src.dtype, dt)
                   if dt != "lin" else I.el_scalar(src, i if len(src.els) > 1 else 0))
    return A.Arr(out, dt, nd)


def np_clip(I, a, k):
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    r = a[0]
    if lo is not None:
        r = np_pairext(True)(I, [r, lo], {})
    if hi is not None:
        r = np_pairext(False)(I, [r, hi], {})
    return r


def np_array(copy):
    def f(I, a, k):
        dt = A.dt_arg(I, a[1] if len(a) > 1 else k.get("dtype"))
        if set(k) - {"dtype", "copy", "ndmin"}:
            I.un("keyword of np.array")
        cp = copy
        if "copy" in k:
            cp = k["copy"] is not False and k["copy"] is not None
        v = a[0]
        if isinstance(v, A.Arr):
            if dt is None or dt == v.dtype:
                r = A.Arr(v.els, v.dtype, v.nd) if cp else v
            else:
                r = A.astype(I, v, dt)
        else:
            r = I.to_arr(v, dt) if not isinstance(v, A.RangeV) else arrayish(I, v)
        if k.get("ndmin") and r.nd < k["ndmin"]:
            r = A.Arr(None, None, A.mknd((1,) * (k["ndmin"] - r.nd) + A.dims(r)), buf=r.buf)
        return r
    return f


def conc(I, x):
    """symbolic size with a small range: split the cell by its value"""
    if isinstance(x, Lin):
        x = I.c.lin(x)
        lo, hi = I.c.P.rng(x)
        if abs(lo) > 10 ** 6 or hi - lo > 24:
            return x
        while lo < hi:
            if not I.c.decide_lin(I.c.lin(x) - (lo + 1)):
                return lo
            lo += 1
        return lo
    return x


def shape_of(I, s):
    s = conc(I, s)
    if isinstance(s, int):
        return (s,)
    if isinstance(s, (tuple, A.PyList)):
        v = tuple(I.iterate(s))
        out = []
        for x in v:
            if isinstance(x, A.Sc):
                cst = I.c.norm(x.e).as_const()
                if cst is None:
                    I.un("symbolic shape")
                x = int(cst)
            x = conc(I, x)
            if not isinstance(x, int):
                I.un("symbolic shape")
            out.append(x)
        return tuple(out)
    if isinstance(s, A.Sc):
        cst = I.c.norm(s.e).as_const()
        if cst is not None:
            if s.ty in ("float", "f8"):
                I.err("TypeError", "float used as a size")
            return (int(cst),)
    if isinstance(s, Lin):
        s = I.c.lin(s)
        if s.is_const():
            return (s.c,)
    I.un("shape argument")


def filled(I, shape, val, dt):
    sh = shape_of(I, shape)
    return A.Arr([val] * A.prod(sh), dt, A.mknd(sh))


def np_full(val):
    def f(I, a, k):
        a = list(a)
        shape = a[0] if a else k.get("shape")
        if val == "fill":
            v = a[1] if len(a) > 1 else k["fill_value"]
            dt = A.dt_arg(I, a[2] if len(a) > 2 else k.get("dtype"))
            if dt is None:
                dt = I.dt_of(v)
        else:
            v = val
            d = a[1] if len(a) > 1 else k.get("dtype")
            dt = A.dt_arg(I, d) if d is not None else "f8"
        if v is None:
            sh = shape_of(I, shape)
            return A.Arr([None if dt == "O" or len(sh) > 1 else Expr.const(0)] * A.prod(sh), dt, A.mknd(sh))
        return filled(I, shape, I.to_el(v, dt), dt)
    return f


def np_like(val):
    def f(I, a, k):
        v = arrayish(I, a[0])
        d = k.get("dtype")
        if val == "fill":
            x = a[1]
        else:
            x = val
        dt = A.dt_arg(I, d) if d is not None else v.dtype
        if x is None:
            x = 0
        return A.Arr([I.to_el(x, dt)] * len(v.els), dt, v.nd)
    return f


def np_arange(I, a, k):
    a = list(a)
    if "dtype" in k:
        dt = A.dt_arg(I, k["dtype"])
    else:
        dt = None
    if len(a) == 1:
        a = [0, a[0]]
    if len(a) == 2:
        a.append(1)
    if all(isinstance(x, (int, Lin)) for x in a):
        its = A.RangeV(*a).items(I)
        if any(isinstance(x, Lin) and not I.c.lin(x).is_const() for x in its):
            return A.Arr([x for x in its], "lin", 1)
        its = [I.c.lin(Lin.of(x)).c if isinstance(x, Lin) else x for x in its]
        return A.Arr([I.to_el(x, dt or "i8") for x in its], dt or "i8", 1)
    I.un("arange")


def np_matmul(I, a, k):
    """contraction of the last axis of x with the first (1-d) or the second to last axis of y"""
    x, y = (arrayish(I, v) for v in a[:2])
    if x.nd == 0 or y.nd == 0:
        I.err("ValueError", "matmul of a scalar")
    dx, dy = A.dims(x), A.dims(y)
    if x.nd > 1 and y.nd > 1:
        if x.nd > 2 or y.nd > 2:
            I.un("matmul")
    n, p = dx[-1], dy[-2] if y.nd > 1 else dy[0]
    if n != p:
        I.err("ValueError", "matmul shapes")
    dt = "O" if "O" in (x.dtype, y.dtype) else None

    def dot(us, vs):
        acc = None
        for u, v in zip(us, vs):
            t = I.binop(MUL, u, v)
            acc = t if acc is None else I.binop(ADD, acc, t)
        return acc
    xs = A.astype(I, x, dt) if dt else x
    ys = A.astype(I, y, dt) if dt else y
    rows = [[I.el_scalar(xs, i * n + q) for q in range(n)] for i in range(len(x.els) // n)]
    w = dy[-1] if y.nd > 1 else 1
    cols = [[I.el_scalar(ys, o * n * w + q * w + j) for q in range(n)] for o in range(len(y.els) // (n * w)) for j in range(w)]
    out = dx[:-1] + (dy[:-2] + dy[-1:] if y.nd > 1 else ())
    r = [dot(u, v) for u in rows for v in cols]
    if not out:
        return r[0]
    return I.wrap(r, dt or I.common([x.dtype, y.dtype]), A.mknd(out))


def np_prod(I, a, k):
    v = a[0]
    its = I.iterate(v) if isinstance(v, (tuple, A.PyList)) else [I.el_scalar(v, i) for i in range(len(v.els))] \
        if isinstance(v, A.Arr) else [v]
    if not its:
        return A.Sc("f8", 1)
    r = its[0]
    for x in its[1:]:
        r = I.binop(MUL, r, x)
    if isinstance(r, int):
        return A.Sc("i8", r)
    return r


def np_sum(I, a, k):
    v = arrayish(I, a[0])
    ax = a[1] if len(a) > 1 else k.get("axis")
    if len(a) > 2 or set(k) - {"axis"} or not (ax is None or isinstance(ax, int)):
        I.un("sum arguments")
    d = A.dims(v)
    if ax is None or len(d) == 1 and ax in (0, -1):
        d, groups = (), [range(len(v.els))]
    else:
        if not -len(d) <= ax < len(d):
            I.err("AxisError")
        ax %= len(d)
        n, w = d[ax], A.prod(d[ax + 1:])
        groups = [[(o * n + q) * w + j for q in range(n)] for o in range(A.prod(d[:ax])) for j in range(w)]
        d = d[:ax] + d[ax + 1:]
    out = []
    for g in groups:
        r = 0
        for i in g:
            r = I.binop(ADD, r, I.el_scalar(v, i))
        out.append(r)
    if not d:
        return out[0]
    return I.wrap(out, v.dtype if v.dtype != "b" else "i8", A.mknd(d))


def np_logical(fn):
    def f(I, a, k):
        xs = [arrayish(I, x) for x in a]
        xs, nd = A.bca(I, xs)
        n = max(len(x.els) for x in xs)
        out = [fn(*[I.truth(I.el_scalar(x, i if len(x.els) > 1 else 0)) for x in xs]) for i in range(n)]
        return A.Arr(out, "b", nd) if nd else A.BoolNp(out[0])
    return f


def np_shape(I, a, k):
    v = a[0]
    v = arrayish(I, v)
    return A.dims(v)


def np_stack(I, a, k):
    its = I.iterate(a[0])
    ax = a[1] if len(a) > 1 else k.get("axis", 0)
    its = [arrayish(I, x) for x in its]
    dt = I.common([x.dtype for x in its])
    its = [A.astype(I, x, dt) for x in its]
    d = A.dims(its[0])
    if any(A.dims(x) != d for x in its):
        I.err("ValueError", "all input arrays must have the same shape")
    if not isinstance(ax, int) or not -len(d) - 1 <= ax <= len(d):
        I.err("AxisError")
    ax %= len(d) + 1
    w = A.prod(d[ax:])
    els = [x.els[o * w + j] for o in range(A.prod(d[:ax])) for x in its for j in range(w)]
    return A.Arr(els, dt, A.mknd(d[:ax] + (len(its),) + d[ax:]))


def np_expand(I, a, k):
    v = arrayish(I, a[0])
    ax = a[1] if len(a) > 1 else k.get("axis")
    d = A.dims(v)
    if not isinstance(ax, int) or not -len(d) - 1 <= ax <= len(d):
        I.un("expand_dims")
    ax %= len(d) + 1
    return A.Arr(None, None, A.mknd(d[:ax] + (1,) + d[ax:]), buf=v.buf)


def transpose(I, v, perm):
    d = A.dims(v)
    pos = [0]
    st = [A.prod(d[i + 1:]) for i in range(len(d))]
    for p in perm:
        pos = [q + i * st[p] for q in pos for i in range(d[p])]
    return A.view(A.Arr([v.els[q] for q in pos], v.dtype, A.mknd(tuple(d[p] for p in perm)), tag=v.buf.tag))


def np_moveaxis(I, a, k):
    v = arrayish(I, a[0])
    if len(a) != 3 or not all(isinstance(x, int) and -v.nd <= x < v.nd for x in a[1:]):
        I.un("moveaxis")
    s, e = (x % v.nd for x in a[1:])
    perm = [i for i in range(v.nd) if i != s]
    perm.insert(e, s)
    return transpose(I, v, perm)


def np_transpose(I, a, k):
    v = arrayish(I, a[0])
    if len(a) > 1 or k:
        I.un("transpose axes")
    return transpose(I, v, list(range(v.nd))[::-1]) if v.nd > 1 else v


def np_concat(I, a, k):
    its = [arrayish(I, x) for x in I.iterate(a[0])]
    dt = I.common([x.dtype for x in its])
    out = []
    for x in its:
        out += A.astype(I, x, dt).els
    return A.Arr(out, dt, 1)


def np_random(I, lo, hi):
    """uniform integer in [lo, hi): a fresh symbol"""
    _, el = I.num(lo)
    _, eh = I.num(hi)
    if not I.c.decide(I.c.norm(eh - el - 1)):
        I.err("ValueError", "empty range for randrange")
    lo_e, hi_e = I.c.norm(el), I.c.norm(eh - 1)
    v = I.c.new_var("rand", lo_e, hi_e)
    I.c._nonempty(v)
    I.c.rands = getattr(I.c, "rands", []) + [(v, lo_e, hi_e)]
    return Expr.var(v)


SKEWED = ("normal", "standard_normal", "randn", "triangular", "binomial", "poisson", "exponential", "beta", "gamma", "geometric", "laplace",
          "logistic", "lognormal", "gauss", "normalvariate", "betavariate", "expovariate", "gammavariate", "vonmises", "weibull", "power")


def skewed(name):
    """a distribution that is not uniform: recorded, the values themselves are not modelled"""
    def fn(I, a, k):
        I.c.rands = getattr(I.c, "rands", []) + [(None, "skewed", name)]
        I.un(f"random.{name}")
    return fn


def unit_draw(I):
    """uniform multiple of 2^-53 in [0, 1)"""
    return I.c.norm(np_random(I, A.Sc("int", Expr()), A.Sc("int", Expr.const(2 ** 53))).shift(Lin(-53)))


def np_rand(name):
    def fn(I, a, k):
        if name == "rand":
            sh = shape_of(I, tuple(a)) if a else ()
        else:
            sz = a[0] if a else k.get("size")
            sh = shape_of(I, sz) if sz is not None else ()
        if not sh:
            return I.mk("float", unit_draw(I))
        n = 1
        for x in sh:
            n *= x
        return A.Arr([unit_draw(I) for _ in range(n)], "f8", A.mknd(sh))
    return fn


def np_uniform(I, a, k):
    """low + (high - low) * unit, the documented definition"""
    lo = a[0] if a else k.get("low", 0)
    hi = a[1] if len(a) > 1 else k.get("high", 1)
    u = np_rand("random")(I, a[2:3], k)
    return I.binop(ADD, lo, I.binop(MUL, I.binop(SUB, hi, lo), u))


def rnd_choice(I, a, k):
    """random.choice: one path per element"""
    xs = I.iterate(a[0])
    if not xs or len(xs) > 16:
        I.un("random.choice")
    if len(xs) > 1:
        I.c.rands = getattr(I.c, "rands", []) + [(None, None, None)]
    for i, x in enumerate(xs[:-1]):
        if I.c.choose() == 0:
            return x
    return xs[-1]


def np_randint(I, a, k):
    lo = a[0] if a else k.get("low")
    hi = a[1] if len(a) > 1 else k.get("high")
    size = a[2] if len(a) > 2 else k.get("size")
    dt = A.dt_arg(I, a[3] if len(a) > 3 else k.get("dtype")) or "i8"
    if hi is None:
        lo, hi = 0, lo
    if k.get("endpoint"):
        hi = I.binop(ADD, hi, 1)

    def one():
        _, el = I.num(lo)
        _, eh = I.num(hi)
        I.chkint(el, dt)
        I.chkint(eh - 1, dt)
        return np_random(I, A.Sc("int", I.trunc(el)), A.Sc("int", I.trunc(eh)))
    if size is None:
        return I.mk("int", one())
    sh = shape_of(I, size)
    n = 1
    for s in sh:
        n *= s
    return A.Arr([one() for _ in range(n)], dt, A.mknd(sh))


def np_vectorize(I, a, k):
    fn = a[0]
    ot = k.get("otypes")

    def call(I2, args, kw):
        xs = [arrayish(I2, x) for x in args]
        xs, nd = A.bca(I, xs)
        n = max(len(x.els) for x in xs)
        out = [I2.call(fn, [I2.el_scalar(x, i if len(x.els) > 1 else 0) for x in xs], {}) for i in range(n)]
        if ot is not None:
            dt = A.dt_arg(I2, I2.iterate(ot)[0])
        else:
            dt = I2.common([I2.dt_of(x) for x in out])
        return A.Arr([I2.to_el(x, dt) for x in out], dt, nd)
    return A.Native(call, "vectorized")


def np_frompyfunc(I, a, k):
    fn = a[0]

    def call(I2, args, kw):
        xs = [arrayish(I2, x) for x in args]
        xs, nd = A.bca(I, xs)
        n = max(len(x.els) for x in xs)
        out = [I2.call(fn, [I2.el_scalar(x, i if len(x.els) > 1 else 0) for x in xs], {}) for i in range(n)]
        if nd == 0:
            return out[0]
        return A.Arr(out, "O", nd)
    return A.Native(call, "frompyfunc")


def warn(I, a, k):
    I.c.events.append(("warn", I.where))
    return None


def copyfn(deep):
    def f(I, a, k):
        v = a[0]
        if isinstance(v, A.Inst):
            n = A.Inst(v.cls)
            n.attrs = {x: (f(I, [y], {}) if deep else y) for x, y in v.attrs.items()}
            return n
        if isinstance(v, A.Arr):
            return A.Arr(v.els, v.dtype, v.nd)
        if isinstance(v, A.PyList):
            return A.PyList([f(I, [x], {}) if deep else x for x in v.v])
        if isinstance(v, A.PyDict):
            return A.PyDict([(p, f(I, [q], {}) if deep else q) for p, q in v.items])
        return v
    return f


def math1(kind):
    g = rnd_fn(kind)

    def f(I, a, k):
        v = a[0]
        if isinstance(v, A.Arr):
            if len(v.els) != 1:
                I.err("TypeError", "only length-1 arrays")
            v = I.el_scalar(v, 0)
        if isinstance(v, (int, Lin)):
            return v
        r = g(I, v, "O")
        return I.mk("int", r.e) if isinstance(r, A.Sc) else r
    return f


def ldexp(I, a, k):
    return I.binop(MUL, a[0], I.power(A.Sc("float", 2), a[1]))


def isscalar(I, a, k):
    v = a[0]
    return isinstance(v, (int, Lin, A.Sc, str, A.BoolNp)) or isinstance(v, A.Special)


def isfinite(I, a, k):
    a0 = arrayish(I, a[0])
    out = [True] * len(a0.els)
    return A.Arr(out, "b", a0.nd) if a0.nd else A.BoolNp(True)


def array_equal(I, a, k):
    x, y = arrayish(I, a[0]), arrayish(I, a[1])
    if A.dims(x) != A.dims(y):
        return False
    return I.truth(reduce_bool(I, I.compare(ast.Eq(), x, y), False))


def np_atleast1(I, a, k):
    v = arrayish(I, a[0])
    if v.nd == 0:
        return A.Arr(None, None, 1, buf=v.buf)
    return v


def np_broadcast_to(I, a, k):
    v = arrayish(I, a[0])
    sh = shape_of(I, a[1])
    if len(sh) != 1:
        if sh == () and v.nd == 0:
            return v
        if len(sh) < v.nd or A.bdims(I, [A.dims(v), sh]) != sh:
            I.err("ValueError", "broadcast_to")
        return A.view(A.Arr(A.expand(v, sh), v.dtype, A.mknd(sh), tag=v.buf.tag))
    return A.Arr(v.els * sh[0] if len(v.els) == 1 else v.els, v.dtype, 1, tag=v.buf.tag)


def np_broadcast_arrays(I, a, k):
    xs = [arrayish(I, x) for x in a]
    if max(x.nd for x in xs) >= 2:
        d = A.bdims(I, [A.dims(x) for x in xs])
        return A.PyList([A.view(A.Arr(A.expand(x, d), x.dtype, A.mknd(d), tag=x.buf.tag)) for x in xs])
    n = max(len(x.els) for x in xs)
    nd = max(x.nd for x in xs)
    return A.PyList([A.Arr(x.els * n if len(x.els) == 1 else x.els, x.dtype, nd, tag=x.buf.tag)
                     if (len(x.els), x.nd) != (n, nd) else x for x in xs])


def np_squeeze(I, a, k):
    v = arrayish(I, a[0])
    return A.Arr(None, None, A.mknd(tuple(x for x in A.dims(v) if x != 1)), buf=v.buf)


def np_ravel(I, a, k):
    v = arrayish(I, a[0])
    return A.Arr(None, None, 1, buf=v.buf)


def np_select(I, a, k):
    conds, vals = I.iterate(a[0]), I.iterate(a[1])
    r = a[2] if len(a) > 2 else k.get("default", 0)
    for c, v in reversed(list(zip(conds, vals))):
        r = np_where(I, [c, v, r], {})
    return r


def N(f, n=""):
    return A.Native(f, n)


def _dts(I, x):
    return x


NP = {
    "array": np_array(True), "asarray": np_array(False), "asanyarray": np_array(False), "where": np_where,
    "ascontiguousarray": np_array(False),
    "floor": uf1("floor"), "ceil": uf1("ceil"), "trunc": uf1("trunc"), "fix": uf1("trunc"),
    "rint": uf1("rint"), "round": uf1("rint"), "around": uf1("rint"),
    "abs": np_abs, "absolute": np_abs, "fabs": np_abs, "sign": np_sign,
    "sort": lambda I, a, k: np_sort(I, a, k), "any": np_any, "all": np_all, "max": np_ext(True), "min": np_ext(False), "amax": np_ext(True),
    "amin": np_ext(False), "maximum": np_pairext(True), "minimum": np_pairext(False), "fmax": np_pairext(True),
    "fmin": np_pairext(False), "clip": np_clip,
    "logical_and": np_logical(lambda a, b: a and b), "logical_or": np_logical(lambda a, b: a or b),
    "logical_not": np_logical(lambda a: not a), "logical_xor": np_logical(lambda a, b: a != b),
    "ndim": lambda I, a, k: len(np_shape(I, a, k)), "shape": np_shape,
    "size": lambda I, a, k: len(arrayish(I, a[0]).els),
    "atleast_1d": np_atleast1, "empty": np_full(None), "zeros": np_full(0), "ones": np_full(1),
    "full": np_full("fill"), "zeros_like": np_like(0), "ones_like": np_like(1), "empty_like": np_like(None),
    "full_like": np_like("fill"), "arange": np_arange, "matmul": np_matmul, "dot": np_matmul,
    "prod": np_prod, "sum": np_sum, "stack": np_stack, "expand_dims": np_expand, "moveaxis": np_moveaxis, "transpose": np_transpose, "concatenate": np_concat, "hstack": np_concat,
    "vectorize": np_vectorize, "frompyfunc": np_frompyfunc, "ldexp": ldexp, "isscalar": isscalar,
    "isfinite": isfinite, "array_equal": array_equal, "broadcast_to": np_broadcast_to,
    "broadcast_arrays": np_broadcast_arrays, "squeeze": np_squeeze, "ravel": np_ravel, "select": np_select,
    "negative": lambda I, a, k: I.neg(arrayish(I, a[0]) if not isinstance(a[0], A.Inst) else a[0]),
    "copy": lambda I, a, k: np_array(True)(I, a, {}),
    "exp2": lambda I, a, k: I.power(A.Sc("f8", 2), a[0]),
    "isnan": lambda I, a, k: np_logical(lambda x: False)(I, [np_cmp(CMP["equal"])(I, [a[0], a[0]], {})], {}),
    "invert": lambda I, a, k: np_logical(lambda x: not x)(I, a, k),
    "count_nonzero": lambda I, a, k: sum(1 for i in range(len(a[0].els)) if I.truth(I.el_scalar(a[0], i))),
}
for _n, _op in CMP.items():
    NP[_n] = np_cmp(_op)
for _n, _op in BIN.items():
    NP[_n] = np_bin(_op)

NPT = {"float64": "f8", "int64": "i8", "uint64": "u8", "double": "f8", "object_": "O", "bool_": "b", "bool": "b",
       "ndarray": "ndarray", "int_": "i8", "dtype": "dtype", "longlong": "i8", "float_": "f8",
       "uint32": "u4", "int32": "i4", "uint8": "u1", "float32": "f4", "uint16": "u2", "int16": "i2", "longdouble": "f16"}


def npattr(I, m, name):
    p = m.path
    if p == "np":
        if name in NP:
            return N(NP[name], "np." + name)
        if name in NPT:
            return A.DType(NPT[name])
        if name in ("random", "linalg", "testing"):
            return A.NpMod("np." + name)
        if name in ("inf",):
            return A.Special("inf")
        if name == "nan":
            return A.Special("nan")
        if name in ("generic", "integer", "floating", "number"):
            return A.Opaque("np." + name)
        if name == "iinfo":
            def ii(I2, a, k):
                b = A.dkey(a[0])
                o = A.Inst(A.Cls("iinfo", [], {}, None))
                o.attrs = {"i8": {"min": -2 ** 63, "max": 2 ** 63 - 1}, "u8": {"min": 0, "max": 2 ** 64 - 1}}[b]
                return o
            return N(ii, "iinfo")
        if name == "newaxis":
            return None
    if p == "np.random":
        if name == "randint":
            return N(np_randint, name)
        if name == "default_rng":
            return N(lambda I2, a, k: A.NpMod("np.random"), name)
        if name == "integers":
            return N(np_randint, name)
        if name in SKEWED:
            return N(skewed(name), name)
        if name == "uniform":
            return N(np_uniform, name)
        if name in ("rand", "random", "random_sample", "ranf", "sample"):
            return N(np_rand(name), name)
        if name == "seed":
            return N(lambda I2, a, k: I2.c.events.append(("state", "random generator", name, I2.where)), name)
    if p == "random":
        if name == "randrange":
            def rr(I2, a, k):
                if len(a) == 1:
                    a = [0, a[0]]
                if len(a) > 2:
                    cnt = I2.binop(FDIV, I2.binop(ADD, I2.binop(SUB, a[1], a[0]), I2.binop(SUB, a[2], 1)), a[2])
                    return I2.binop(ADD, a[0], I2.binop(MUL, a[2], I2.mk("int", np_random(I2, 0, cnt))))
                return I2.mk("int", np_random(I2, a[0], a[1]))
            return N(rr, name)
        if name == "randint":
            return N(lambda I2, a, k: I2.mk("int", np_random(I2, a[0], I2.binop(ADD, a[1], 1))), name)
        if name == "choice":
            return N(rnd_choice, name)
        if name in SKEWED:
            return N(skewed(name), name)
        if name == "uniform":
            return N(np_uniform, name)
        if name == "random":
            return N(lambda I2, a, k: I2.mk("float", unit_draw(I2)), name)
        if name == "seed":
            return N(lambda I2, a, k: I2.c.events.append(("state", "random generator", name, I2.where)), name)
        if name == "getrandbits":
            return N(lambda I2, a, k: I2.mk("int", np_random(I2, 0, I2.power(2, a[0]))), name)
    if p == "warnings":
        if name == "warn":
            return N(warn, "warn")
        if name == "catch_warnings":
            return N(lambda I2, a, k: A.Opaque("catch_warnings"), name)
        if name in ("simplefilter", "filterwarnings"):
            return N(lambda I2, a, k: I2.c.events.append(("state", "warnings filter", name, I2.where))
                     if I2.phase == "run" else None, name)
    if p == "copy":
        if name in ("copy", "deepcopy"):
            return N(copyfn(name == "deepcopy"), name)
    if p == "math":
        if name in ("floor", "ceil", "trunc"):
            return N(math1(name), name)
        if name == "inf":
            return A.Special("inf")
        if name == "ldexp":
            return N(ldexp, name)
        if name == "prod":
            return N(lambda I2, a, k: _pyprod(I2, a[0]), name)
        if name == "fabs":
            return N(np_abs, name)
    if p == "enum":
        if name in ("Enum", "IntEnum"):
            return A.Opaque("Enum")
        if name == "unique":
            return N(lambda I2, a, k: a[0], name)
        if name == "auto":
            return N(lambda I2, a, k: I2.un("enum.auto"), name)
    if p == "functools":
        if name in ("wraps",):
            return N(lambda I2, a, k: N(lambda I3, b, kk: b[0], "id"), name)
        if name in ("lru_cache", "cache"):
            def cache(I2, a, k):
                if a and isinstance(a[0], A.Func):
                    return I2.un("memoised function")
                return N(lambda I3, b, kk: I3.un("memoised function"), name)
            return N(cache, name)
        if name == "reduce":
            def red(I2, a, k):
                its = I2.iterate(a[1])
                acc = a[2] if len(a) > 2 else its.pop(0)
                for x in its:
                    acc = I2.call(a[0], [acc, x], {})
                return acc
            return N(red, name)
        if name == "partial":
            return N(lambda I2, a, k: N(lambda I3, b, kk: I3.call(a[0], list(a[1:]) + list(b), {**k, **kk}), "partial"), name)
    if p == "operator":
        ops = {"add": ADD, "sub": SUB, "mul": MUL, "floordiv": FDIV, "truediv": DIV, "lshift": ast.LShift(),
               "rshift": ast.RShift(), "pow": ast.Pow(), "mod": MOD}
        cm = {"eq": ast.Eq(), "ne": ast.NotEq(), "lt": ast.Lt(), "le": ast.LtE(), "gt": ast.Gt(), "ge": ast.GtE()}
        if name in ops:
            return N(lambda I2, a, k: I2.binop(ops[name], a[0], a[1]), name)
        if name in cm:
            return N(lambda I2, a, k: I2.compare(cm[name], a[0], a[1]), name)
        if name == "neg":
            return N(lambda I2, a, k: I2.neg(a[0]), name)
    if p == "itertools" and name == "product":
        import itertools
        return N(lambda I2, a, k: A.PyList(itertools.product(*[I2.iterate(x) for x in a])), name)
    if p == "numbers":
        return A.Opaque("numbers." + name)
    if p in ("os", "sys", "typing", "contextlib"):
        if p == "os" and name == "path":
            return A.NpMod("os")
        return A.Opaque(p + "." + name)
    I.un(f"{p}.{name}")


def _pyprod(I, v):
    r = 1
    for x in I.iterate(v):
        r = I.binop(MUL, r, x)
    return r


# --------------------------------------------------------------------------- attributes
ARRNAMES = {"__getitem__", "astype", "dtype", "shape", "ndim", "size", "flat", "copy", "any", "all", "max", "min",
            "sum", "item", "tolist", "reshape", "ravel", "flatten", "T", "squeeze", "fill", "clip", "round", "view",
            "__array__", "__add__", "__mul__", "__lt__", "__eq__", "nbytes", "itemsize", "data", "tobytes", "prod",
            "mean", "transpose", "imag", "real", "conj", "strides", "flags", "base", "__len__", "__iter__"}


def arr_attr(I, a, name):
    if name == "shape":
        return A.dims(a)
    if name == "ndim":
        return a.nd
    if name == "size":
        return len(a.els)
    if name == "dtype":
        return A.DType(getattr(a.dtype, "real", a.dtype))
    if name == "T":
        return np_transpose(I, [a], {})
    if name == "real":
        return a
    if name == "flat":
        return A.Arr(None, None, 1, buf=a.buf)
    if name == "astype":
        def f(I2, x, k):
            dt = A.dt_arg(I2, x[0] if x else k.get("dtype"))
            if k.get("copy") is False and dt == a.dtype:
                return a
            return A.astype(I2, a, dt)
        return N(f, name)
    if name in ("copy", "flatten", "__copy__"):
        return N(lambda I2, x, k: A.Arr(a.els, a.dtype, a.nd if name != "flatten" else 1), name)
    if name in ("ravel",):
        return N(lambda I2, x, k: A.Arr(None, None, 1, buf=a.buf), name)
    if name == "reshape":
        def rs(I2, x, k):
            sh = x[0] if len(x) == 1 else tuple(x)
            if isinstance(sh, A.PyList):
                sh = tuple(sh.v)
            if sh == -1 or sh == (-1,):
                return A.Arr(None, None, 1, buf=a.buf)
            if isinstance(sh, int):
                sh = (sh,)
            if isinstance(sh, tuple) and all(isinstance(s, int) for s in sh) and sh.count(-1) <= 1 and not k:
                n = 1
                for s in sh:
                    n *= s if s != -1 else 1
                if -1 in sh and n and len(a.els) % n == 0:
                    sh = tuple(len(a.els) // n if s == -1 else s for s in sh)
                    n = len(a.els)
                if n != len(a.els):
                    I2.err("ValueError", "reshape")
                return A.Arr(None, None, A.mknd(sh), buf=a.buf)
            I2.un("reshape")
        return N(rs, name)
    if name in ("any", "all"):
        return N(lambda I2, x, k: (np_any if name == "any" else np_all)(I2, [a] + list(x), k), name)
    if name in ("max", "min"):
        return N(lambda I2, x, k: np_ext(name == "max")(I2, [a] + list(x), k), name)
    if name == "sum":
        return N(lambda I2, x, k: np_sum(I2, [a] + list(x), k), name)
    if name == "clip":
        return N(lambda I2, x, k: np_clip(I2, [a] + list(x), k), name)
    if name == "round":
        return N(lambda I2, x, k: uf1("rint")(I2, [a] + list(x), k), name)
    if name == "squeeze":
        return N(lambda I2, x, k: np_squeeze(I2, [a], k), name)
    if name == "item":
        def it(I2, x, k):
            if len(a.els) != 1 and not x:
                I2.err("ValueError", "item")
            v = I2.el_scalar(a, x[0] if x else 0)
            if isinstance(v, A.Sc):
                return A.Sc("float", v.e) if v.ty in ("f8", "float") else I2.mk("int", v.e)
            if isinstance(v, A.BoolNp):
                return v.b
            return v
        return N(it, name)
    if name == "tolist":
        def tl(I2, x, k):
            if a.nd >= 2:
                return A.PyList([arr_attr(I2, r, "tolist").fn(I2, [], {}) for r in I2.iterate(a)])
            out = []
            for i in range(len(a.els)):
                v = I2.el_scalar(a, i)
                if isinstance(v, A.Sc):
                    v = A.Sc("float", v.e) if v.ty in ("f8", "float") else I2.mk("int", v.e)
                elif isinstance(v, A.BoolNp):
                    v = v.b
                out.append(v)
            return A.PyList(out) if a.nd else out[0]
        return N(tl, name)
    if name == "fill":
        def fl(I2, x, k):
            I2.mutate(a, "fill()")
            a.buf.els[:] = [I2.to_el(x[0], a.dtype)] * len(a.els)
        return N(fl, name)
    if name in ("sort", "put", "itemset", "partition"):
        def bad(I2, x, k):
            I2.mutate(a, name + "()")
            I2.un("array method " + name)
        return N(bad, name)
    if name in ("__getitem__",):
        return N(lambda I2, x, k: I2.getitem(a, x[0]), name)
    if name == "__len__":
        return N(lambda I2, x, k: b_len(I2, [a], {}), name)
    I.un("array attribute " + name)


def sc_attr(I, v, name):
    if v.ty in ("f8", "i8", "u8"):
        if name == "astype":
            def f(I2, x, k):
                dt = A.dt_arg(I2, x[0])
                r = A.Arr([I2.cast_el(v.e, v.ty, dt)], dt, 0)
                return I2.el_scalar(r, 0)
            return N(f, name)
        if name == "dtype":
            return A.DType(v.ty)
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "copy":
            return N(lambda I2, x, k: v, name)
        if name == "item":
            return N(lambda I2, x, k: A.Sc("float", v.e) if v.ty == "f8" else I2.mk("int", v.e), name)
        if name in ("any", "all"):
            return N(lambda I2, x, k: A.BoolNp(I2.truth(v)), name)
        if name in ("max", "min"):
            return N(lambda I2, x, k: v, name)
        if name == "flat":
            return A.PyList([v])
        if name in ("real", "T"):
            return v
        if name == "clip":
            return N(lambda I2, x, k: np_clip(I2, [v] + list(x), k), name)
    if name == "is_integer" and v.ty in ("float", "f8"):
        return N(lambda I2, x, k: I2.c.is_zero(I2.c.norm(I2.c.floor1(v.e) - v.e)) is True
                 or I2.c.eq0(I2.c.norm(I2.c.floor1(v.e) - I2.c.norm(v.e))), name)
    if name == "real":
        return v
    if name == "bit_length":
        I.un("bit_length of data")
    if v.ty in ("int", "float") and name in ARRNAMES:
        I.err("AttributeError", f"{v.ty}.{name}")
    I.un(f"attribute {name} of {v.ty}")


def str_attr(I, s, name):
    if isinstance(s, str):
        m = getattr(s, name, None)
        if m is None:
            I.err("AttributeError", "str." + name)

        def f(I2, a, k):
            if name == "join":
                return I2.mkstr(_join(s, [x for x in I2.iterate(a[0])]))
            if name == "format":
                return I2.strformat(s, a, k)
            if all(isinstance(x, (str, int, tuple)) for x in a):
                try:
                    r = m(*a)
                except ValueError:
                    I2.err("ValueError")
                return A.PyList(r) if isinstance(r, list) else r
            I2.un("string method " + name)
        return N(f, name)
    I.un("string method " + name)


def _join(sep, its):
    out = []
    for i, x in enumerate(its):
        if i:
            out.append(sep)
        out.append(x)
    return out


def list_attr(I, l, name):
    def f(I2, a, k):
        if name == "append":
            I2.touch(l, "append()")
            l.v.append(a[0])
        elif name == "extend":
            I2.touch(l, "extend()")
            l.v.extend(I2.iterate(a[0]))
        elif name == "insert":
            I2.touch(l, "insert()")
            l.v.insert(a[0], a[1])
        elif name == "pop":
            I2.touch(l, "pop()")
            if not l.v:
                I2.err("IndexError")
            return l.v.pop(*a)
        elif name == "copy":
            return A.PyList(l.v)
        elif name == "index":
            for i, x in enumerate(l.v):
                if I2.truth(I2.eq(x, a[0])):
                    return i
            I2.err("ValueError")
        elif name == "reverse":
            I2.touch(l, "reverse()")
            l.v.reverse()
        elif name == "clear":
            I2.touch(l, "clear()")
            l.v.clear()
        else:
            I2.un("list method " + name)
    return N(f, name)


def dict_attr(I, d, name):
    def f(I2, a, k):
        if name == "items":
            return A.PyList([tuple(x) for x in d.items])
        if name == "keys":
            return A.PyList([x for x, _ in d.items])
        if name == "values":
            return A.PyList([x for _, x in d.items])
        if name == "get":
            for kk, v in d.items:
                if I2.truth(I2.eq(kk, a[0])):
                    return v
            return a[1] if len(a) > 1 else None
        if name == "copy":
            return A.PyDict(d.items)
        if name in ("update", "pop", "setdefault", "clear"):
            I2.touch(d, name + "()")
        I2.un("dict method " + name)
    return N(f, name)


# --------------------------------------------------------------------------- builtins
def b_ext(ismax):
    def f(I, a, k):
        key = k.get("key")
        if set(k) - {"key"}:
            I.un("max keyword")
        its = I.iterate(a[0]) if len(a) == 1 else list(a)
        if not its:
            I.err("ValueError")
        kf = (lambda x: I.call(key, [x], {})) if key is not None else (lambda x: x)
        b, kb = its[0], kf(its[0])
        for x in its[1:]:
            kx = kf(x)
            if I.truth(I.compare(ast.Gt() if ismax else ast.Lt(), kx, kb)):
                b, kb = x, kx
        return b
    return f


def isort(I, its, kf=None, reverse=False):
    """stable insertion sort; every comparison is decided on the current path"""
    kf = kf or (lambda x: x)
    out = []
    for x in its:
        kx, i = kf(x), len(out)
        while i > 0 and I.truth(I.compare(ast.Gt() if reverse else ast.Lt(), kx, out[i - 1][1])):
            i -= 1
        out.insert(i, (x, kx))
    return [x for x, _ in out]


def b_sorted(I, a, k):
    if set(k) - {"key", "reverse"}:
        I.un("sorted keyword")
    key = k.get("key")
    return A.PyList(isort(I, I.iterate(a[0]), (lambda x: I.call(key, [x], {})) if key is not None else None, bool(k.get("reverse"))))


def np_sort(I, a, k):
    x = arrayish(I, a[0])
    if set(k) - {"axis"} or len(a) > 1 or k.get("axis", -1) not in (-1, 0) or len(A.dims(x)) != 1:
        I.un("np.sort")
    return A.Arr([I.to_el(e, x.dtype) for e in isort(I, [I.el_scalar(x, i) for i in range(len(x.els))])], x.dtype, 1)


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, A.Inst):
        return I.call_method(v, "__abs__", [])
    if isinstance(v, (int, Lin)):
        return v if I.truth(I.compare(ast.GtE(), v, 0)) else I.neg(v)
    if isinstance(v, A.Arr) or isinstance(v, A.Sc) and v.ty in ("f8", "i8", "u8"):
        return np_abs(I, a, k)
    if isinstance(v, A.Sc):
        return v if I.truth(I.compare(ast.GtE(), v, 0)) else I.neg(v)
    I.un("abs")


def b_len(I, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, A.PyList):
        return len(v.v)
    if isinstance(v, A.PyDict):
        return len(v.items)
    if isinstance(v, A.Arr):
        if v.nd == 0:
            I.err("TypeError", "len() of unsized object")
        return A.dims(v)[0]
    if isinstance(v, A.Inst):
        if v.cls.has("__len__"):
            r = I.call_method(v, "__len__", [])
            return r
        I.err("TypeError", "len")
    if isinstance(v, A.Cls):
        return len(I.iterate(v))
    if isinstance(v, (int, Lin, A.Sc, A.BoolNp)) or v is None:
        I.err("TypeError", "len")
    if isinstance(v, A.RangeV):
        return len(v.items(I))
    I.un("len")


def b_range(I, a, k):
    xs = []
    for x in a:
        if isinstance(x, A.Sc):
            c = I.c.norm(x.e).as_const()
            if x.ty in ("float", "f8"):
                I.err("TypeError", "range of float")
            if c is None:
                I.un("range over data")
            x = int(c)
        if isinstance(x, bool):
            x = int(x)
        xs.append(x)
    if len(xs) == 1:
        xs = [0, xs[0]]
    if len(xs) == 2:
        xs.append(1)
    return A.RangeV(*xs)


def b_round(I, a, k):
    v = a[0]
    if len(a) > 1 or k:
        I.un("round digits")
    if isinstance(v, (int, Lin)):
        return v
    if isinstance(v, A.Sc):
        if v.ty in ("int", "i8", "u8"):
            return I.mk("int", v.e)
        return I.mk("int", rint(I, v.e))
    I.un("round")


def b_sum(I, a, k):
    r = a[1] if len(a) > 1 else 0
    for x in I.iterate(a[0]):
        r = I.binop(ADD, r, x)
    return r


def b_super(I, a, k):
    I.un("super")


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        I.un("getattr name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except A.PyRaise as e:
            if e.name == "AttributeError":
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def b_divmod(I, a, k):
    return (I.binop(FDIV, a[0], a[1]), I.binop(MOD, a[0], a[1]))


def b_pow(I, a, k):
    if len(a) == 3:
        I.un("modular pow")
    return I.binop(ast.Pow(), a[0], a[1])


def b_print(I, a, k):
    f = k.get("file")
    if isinstance(f, A.Opaque) and f.what == "file" and set(k) <= {"file", "sep", "end", "flush"}:
        sep = " " if k.get("sep") is None else k["sep"]
        parts = []
        for i, x in enumerate(a):
            parts += ([sep] if i else []) + [I.tostr(x)]
        parts.append("\n" if k.get("end") is None else k["end"])
        I.c.events.append(("file.write", [I.mkstr(parts)], I.where))
        return None
    I.c.events.append(("print", I.where))


def b_open(I, a, k):
    I.c.events.append(("file.open", a, I.where))
    return A.Opaque("file")


def b_zip(I, a, k):
    return A.PyList(zip(*[I.iterate(x) for x in a]))


BUILTINS = {
    "max": b_ext(True), "min": b_ext(False), "abs": b_abs, "len": b_len, "range": b_range, "round": b_round,
    "sum": b_sum, "super": b_super, "getattr": b_getattr, "divmod": b_divmod, "pow": b_pow, "print": b_print,
    "open": b_open, "zip": b_zip,
    "enumerate": lambda I, a, k: A.PyList([(i + (a[1] if len(a) > 1 else k.get("start", 0)), x)
                                           for i, x in enumerate(I.iterate(a[0]))]),
    "isinstance": lambda I, a, k: A.isinst(I, a[0], a[1]),
    "issubclass": lambda I, a, k: (a[1] in a[0].mro()) if isinstance(a[0], A.Cls) else I.un("issubclass"),
    "hasattr": lambda I, a, k: I.hasattr(a[0], a[1]),
    "setattr": lambda I, a, k: I.setattr(a[0], a[1], a[2]),
    "any": lambda I, a, k: any(I.truth(x) for x in I.iterate(a[0])),
    "all": lambda I, a, k: all(I.truth(x) for x in I.iterate(a[0])),
    "sorted": b_sorted,
    "reversed": lambda I, a, k: A.PyList(I.iterate(a[0])[::-1]),
    "property": lambda I, a, k: A.Prop(a[0]),
    "staticmethod": lambda I, a, k: A.StaticM(a[0]),
    "classmethod": lambda I, a, k: A.ClassM(a[0]),
    "callable": lambda I, a, k: isinstance(a[0], (A.Func, A.Native, A.Cls, A.Bound)),
    "map": lambda I, a, k: A.PyList([I.call(a[0], list(xs), {}) for xs in zip(*[I.iterate(y) for y in a[1:]])]),
    "filter": lambda I, a, k: A.PyList([x for x in I.iterate(a[1])
                                        if (I.truth(I.call(a[0], [x], {})) if a[0] is not None else I.truth(x))]),
    "id": lambda I, a, k: id(a[0]),
    "repr": lambda I, a, k: I.tostr(a[0], conv=114),
    "vars": lambda I, a, k: I.un("vars"),
    "format": lambda I, a, k: I.tostr(a[0]),
    "iter": lambda I, a, k: A.PyList(I.iterate(a[0])),
}
