"""Abstract numeric values: exact sums  c * 2^L * v1 * v2...  with L a linear form over format
parameters (Poly) and v_i integer data symbols ranging over boxes with 2^L-shaped bounds.

A Ctx is one cell of the trace partition: a polyhedron over the parameters, a box per data symbol,
definitional rewrites (q/r decompositions) and relational leftovers.  Every query is answered from
the domain alone: bounds of a sum over the cell.  Where a branch condition is not entailed, the cell
is split (Ctx.choose) and both parts are analysed.
"""
from fractions import Fraction
from poly import Lin, Poly, INF


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


def _v2(fr):
    """fr = odd * 2^s (dyadic rational) -> (odd, s); non-dyadic keeps denominator in odd."""
    n, d = fr.numerator, fr.denominator
    s = 0
    while n % 2 == 0:
        n //= 2
        s += 1
    while d % 2 == 0:
        d //= 2
        s -= 1
    return Fraction(n, d), s


def _naf(n):
    """Sparse signed binary digits [(position, +-1)] of an integer."""
    sg0 = 1 if n > 0 else -1
    n = abs(n)
    out, k = [], 0
    while n:
        if n & 1:
            d = 2 - (n & 3)
            out.append((k, d * sg0))
            n -= d
        n >>= 1
        k += 1
    return out


def _flog2(fr):
    fr = abs(fr)
    k = fr.numerator.bit_length() - fr.denominator.bit_length()
    while Fraction(2) ** k > fr:
        k -= 1
    while Fraction(2) ** (k + 1) <= fr:
        k += 1
    return k


ZERO = Lin(0)


class Expr:
    __slots__ = ("d", "_k")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Expr({(ZERO, ()): c} if c else {})

    @staticmethod
    def pow2(L, c=1):
        L = Lin.of(L)
        c = Fraction(c) * Fraction(2) ** L.c
        return Expr({(L.noconst(), ()): c} if c else {})

    @staticmethod
    def var(v):
        return Expr({(ZERO, (v,)): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Expr):
            return x
        return Expr.const(x)

    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __add__(self, o):
        o = Expr.of(o)
        d = dict(self.d)
        for k, c in o.d.items():
            n = d.get(k, 0) + c
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Expr(d)
    __radd__ = __add__

    def __neg__(self):
        return Expr({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-Expr.of(o))

    def __rsub__(self, o):
        return Expr.of(o) + (-self)

    def __mul__(self, o):
        o = Expr.of(o)
        d = {}
        for (L1, m1), c1 in self.d.items():
            for (L2, m2), c2 in o.d.items():
                L = L1 + L2
                k = (L, tuple(sorted(m1 + m2)))
                n = d.get(k, 0) + c1 * c2
                if n:
                    d[k] = n
                else:
                    d.pop(k, None)
        return Expr(d)
    __rmul__ = __mul__

    def shift(self, L):
        """self * 2^L"""
        return self * Expr.pow2(L)

    def vars(self):
        s = set()
        for _, m in self.d:
            s.update(m)
        return s

    def is_zero(self):
        return not self.d

    def as_const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1:
            (L, m), c = next(iter(self.d.items()))
            if not m and L.is_const():
                return c
        return None

    def as_pow2(self):
        """Return (c, L) when the value is a single var-free term c*2^L, c odd part."""
        if len(self.d) == 1:
            (L, m), c = next(iter(self.d.items()))
            if not m:
                o, s = _v2(c)
                return o, L + s
        return None

    def at(self, pt):
        tot = Fraction(0)
        for (L, m), c in self.d.items():
            x = c * Fraction(2) ** L.at(pt)
            for v in m:
                x *= pt[v]
            tot += x
        return tot

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for (L, m), c in sorted(self.d.items(), key=lambda kv: repr(kv[0])):
            s = str(c)
            if L.t:
                s += f"*2^({L})"
            for v in m:
                s += "*" + v
            out.append(s)
        return " + ".join(out)


def _sum_sign(P, e):
    """e var-free. -> (lower_sign, upper_sign) with each in {'-','0','+',None...}
    Returns tuple flags (ge0, gt0, le0, lt0): True when entailed."""
    k = ("sign", e.key())
    r = P.memo.get(k)
    if r is not None:
        return r
    terms = [(L, c) for (L, m), c in e.d.items()]
    ge = gt = le = lt = False
    if not terms:
        r = (True, False, True, False)
        P.memo[k] = r
        return r
    if all(c > 0 for _, c in terms):
        r = (True, True, False, False)
    elif all(c < 0 for _, c in terms):
        r = (False, False, True, True)
    else:
        for Lp, _ in terms:
            lo = hi = Fraction(0)
            loinf = hiinf = False
            for L, c in terms:
                a, b = P.rng(L - Lp)
                if a == INF:
                    raise Infeasible()
                # 2^d in [2^a, 2^b]
                if a == -INF:
                    pa = Fraction(0)
                elif a > 4000:
                    pa = Fraction(2) ** 4000
                else:
                    pa = Fraction(2) ** max(a, -4000) if a >= -4000 else Fraction(0)
                pb = None if (b == INF or b > 4000) else Fraction(2) ** max(b, -4000)
                if c > 0:
                    lo += c * pa
                    if pb is None:
                        hiinf = True
                    else:
                        hi += c * pb
                else:
                    if pb is None:
                        loinf = True
                    else:
                        lo += c * pb
                    hi += c * pa
            if not loinf:
                # 2^d > 0 strictly: lo bound with pa=0 (a=-INF) is strict, treated as >=
                if lo >= 0:
                    ge = True
                if lo > 0:
                    gt = True
                if lo == 0 and any(c > 0 and P.rng(L - Lp)[0] == -INF for L, c in terms):
                    gt = True
            if not hiinf:
                if hi <= 0:
                    le = True
                if hi < 0:
                    lt = True
                if hi == 0 and any(c < 0 and P.rng(L - Lp)[0] == -INF for L, c in terms):
                    lt = True
        r = (ge, gt, le, lt)
    P.memo[k] = r
    return r


def _suggest(P, e):
    """A linear form whose sign should be split to make progress on the sign of var-free e."""
    k = ("sug", e.key())
    if k in P.memo:
        return P.memo[k]
    terms = [(L, c) for (L, m), c in e.d.items()]
    best = None
    for i in range(len(terms)):
        for j in range(i + 1, len(terms)):
            (Li, ci), (Lj, cj) = terms[i], terms[j]
            d = Li - Lj + (_flog2(ci) - _flog2(cj))
            lo, hi = P.rng(d)
            if lo == hi:
                continue
            opp = (ci > 0) != (cj > 0)
            if lo <= 0 < hi and lo < 0:
                cand = (0 if opp else 2, 0, d - 1 if False else d)      # split at d>=0 / d<=-1
                sp = d
            elif lo >= 0:
                sp = d - (lo + 1)
                cand = (1 if opp else 3, lo, sp)
            elif hi <= 0:
                sp = d - hi
                cand = (1 if opp else 3, -hi, sp)
            else:
                sp = d
                cand = (0 if opp else 2, 0, sp)
            if best is None or cand[:2] < best[:2]:
                best = cand
    r = best[2] if best else None
    P.memo[k] = r
    return r


class Ctx:
    MAXCHOICES = 400

    def __init__(self, P, prefix=()):
        self.P = P
        self.prefix = list(prefix)
        self.arity = []
        self.pos = 0
        self.sub = {}
        self.dsub = {}
        self.decomp = {}
        self.uf = []
        self.box = {}
        self.rel = []
        self.prod = {}
        self.approx = []
        self.nvar = 0
        self.events = []
        self.funcs = set()
        self.trace = []
        self.deps = []       # definitions of derived symbols, for witnesses: (sym, kind, data)
        self.inputs = {}     # input symbol name -> Expr (definition through rewrites)
        self._busy = False
        self._sync_eq()

    # ---------------------------------------------------------------- choices
    def choose(self, n=2):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            if self.pos >= self.MAXCHOICES:
                raise Undecided("too many splits")
            c = 0
            self.prefix.append(0)
        self.arity.append(n)
        self.pos += 1
        return c

    # ---------------------------------------------------------------- parameters
    def fresh(self, stem):
        self.nvar += 1
        return f"{stem}.{self.nvar}"

    def lin(self, L):
        L = Lin.of(L)
        while self.sub and any(v in self.sub for v, _ in L.t):
            L = L.subst(self.sub)
        return L

    def _sync_eq(self):
        if self.P.empty:
            raise Infeasible()
        eqs = self.P.memo.get("eqs")
        if eqs is None:
            eqs = [L for L in self.P.constraints() if self.P.rng(L)[1] == 0]
            self.P.memo["eqs"] = eqs
        for L in eqs:
            L = self.lin(L)
            if L.is_const():
                if L.c != 0:
                    raise Infeasible()
                continue
            for v, k in L.t:
                if abs(k) == 1:
                    rest = L - Lin(0, ((v, k),))
                    self.sub[v] = rest * (-k)
                    break

    def add_lin(self, L):
        self.P = self.P.add(self.lin(L))
        if self.P.empty:
            raise Infeasible()
        self._sync_eq()

    def ent_lin(self, L):
        return self.P.ge0(self.lin(L))

    def decide_lin(self, L):
        """L >= 0 ?"""
        L = self.lin(L)
        r = self.P.ge0(L)
        if r is not None:
            return r
        if self.choose() == 0:
            self.add_lin(L)
            return True
        self.add_lin(-L - 1)
        return False

    def lin_eq0(self, L):
        L = self.lin(L)
        lo, hi = self.P.rng(L)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        if self.decide_lin(L):
            return self.decide_lin(-L)
        return False

    # ---------------------------------------------------------------- expressions
    def norm(self, e):
        if not e.d:
            return e
        for _ in range(200):
            need = False
            for (L, m) in e.d:
                if any(v in self.dsub for v in m) or (self.sub and any(v in self.sub for v, _ in L.t)) \
                        or (self.prod and len(m) > 1 and self._prodmatch(m)):
                    need = True
                    break
            if not need:
                return e
            out = Expr()
            for (L, m), c in e.d.items():
                L2 = self.lin(L)
                t = Expr.pow2(L2, c)
                if self.prod and len(m) > 1:
                    pm = self._prodmatch(m)
                    if pm:
                        m = pm
                rest = []
                for v in m:
                    if v in self.dsub:
                        t = t * self.dsub[v]
                    else:
                        rest.append(v)
                if rest:
                    t = t * Expr({(ZERO, tuple(sorted(rest))): Fraction(1)})
                out = out + t
            e = out
        raise Undecided("normalisation did not terminate")

    def _prodmatch(self, m):
        return self.prod.get(m)

    def new_var(self, stem, lo, hi):
        v = self.fresh(stem)
        self.box[v] = (self.norm(Expr.of(lo)), self.norm(Expr.of(hi)))
        return v

    def new_input(self, stem, lo, hi):
        v = self.new_var(stem, lo, hi)
        self.inputs[stem] = Expr.var(v)
        self._nonempty(v)
        return Expr.var(v)

    def _corners(self, e, low):
        """List of var-free sums whose min (low) / max is the min/max of e over the boxes."""
        e = self.norm(e)
        vs = e.vars()
        if not vs:
            return [e]
        # linear in each var?
        for _, m in e.d:
            if len(set(m)) != len(m):
                raise Undecided("non-multilinear term")
        # choose var with determined coefficient sign first
        pick = None
        for v in sorted(vs):
            co = self._coef(e, v)
            ge, gt, le, lt = self._flags(co)
            if ge or le:
                pick = (v, co, ge)
                break
        if pick:
            v, co, ge = pick
            lo, hi = self.box[v]
            val = lo if (ge == low) else hi
            return self._corners(self._subst1(e, v, val), low)
        v = sorted(vs)[0]
        lo, hi = self.box[v]
        return self._corners(self._subst1(e, v, lo), low) + self._corners(self._subst1(e, v, hi), low)

    @staticmethod
    def _coef(e, v):
        d = {}
        for (L, m), c in e.d.items():
            if v in m:
                mm = list(m)
                mm.remove(v)
                k = (L, tuple(mm))
                d[k] = d.get(k, 0) + c
        return Expr(d)

    @staticmethod
    def _subst1(e, v, val):
        out = Expr()
        for (L, m), c in e.d.items():
            if v in m:
                mm = list(m)
                mm.remove(v)
                out = out + Expr({(L, tuple(mm)): c}) * val
            else:
                out = out + Expr({(L, m): c})
        return out

    def _flags(self, e):
        """(ge0, gt0, le0, lt0) entailed over the cell (boxes only)."""
        e = self.norm(e)
        if not e.vars():
            return _sum_sign(self.P, e)
        lows = [_sum_sign(self.P, self.norm(x)) for x in self._corners(e, True)]
        his = [_sum_sign(self.P, self.norm(x)) for x in self._corners(e, False)]
        return (all(x[0] for x in lows), all(x[1] for x in lows),
                all(x[2] for x in his), all(x[3] for x in his))

    def ge0(self, e, strict=False):
        """Entailment of e >= 0 (e > 0): True / False / None."""
        e = self.norm(e)
        ge, gt, le, lt = self._flags(e)
        if strict:
            if gt:
                return True
            if le:
                return False
        else:
            if ge:
                return True
            if lt:
                return False
        if self.rel and e.vars():
            for c in self.rel:
                c = self._match_scale(self.norm(c), e)
                a = self._flags(e - c)
                if (a[1] if strict else a[0]):
                    return True
                a = self._flags(e + c)
                if (a[2] if strict else a[3]):
                    return False
        return None

    def _match_scale(self, c, e):
        """c scaled by the power of two that makes a common monomial of c and e coincide"""
        for (L1, m1), c1 in sorted(e.d.items(), key=lambda kv: repr(kv[0])):
            if not m1:
                continue
            hits = [(L2, c2) for (L2, m2), c2 in c.d.items() if m2 == m1]
            if len(hits) == 1:
                L2, c2 = hits[0]
                o, s = _v2(abs(c1) / abs(c2))
                if o == 1 and (s or (L1 - L2).t or L1.c != L2.c):
                    return c.shift(L1 - L2 + s)
                break
        return c

    def is_zero(self, e):
        """Entailment of e == 0 -> True/False/None"""
        e = self.norm(e)
        if e.is_zero():
            return True
        ge, gt, le, lt = self._flags(e)
        if ge and le:
            return True
        if gt or lt:
            return False
        if self.rel:
            a = self.ge0(e)
            b = self.ge0(-e)
            if a and b:
                return True
            if a is False or b is False:
                return False
        return None

    def decide_sum(self, e, strict=False):
        """e var-free; splits parameters until the sign is known."""
        for _ in range(60):
            e = self.norm(e)
            ge, gt, le, lt = _sum_sign(self.P, e)
            if strict:
                if gt:
                    return True
                if le:
                    return False
            else:
                if ge:
                    return True
                if lt:
                    return False
            s = _suggest(self.P, e)
            if s is None:
                raise Undecided(f"sign of {e}")
            self.decide_lin(s)
        raise Undecided(f"sign of {e}")

    def settle(self, e):
        """Split parameters until the extreme values of e over the boxes have known sign."""
        for low in (True, False):
            for _ in range(60):
                e = self.norm(e)
                todo = None
                for x in self._corners(e, low):
                    x = self.norm(x)
                    ge, gt, le, lt = _sum_sign(self.P, x)
                    if not (ge or lt):
                        todo = _suggest(self.P, x)
                        if todo is None:
                            raise Undecided(f"sign of {x}")
                        break
                if todo is None:
                    break
                self.decide_lin(todo)

    def decide(self, e, strict=False):
        """Is e >= 0 (e > 0)?  Splits the cell if needed."""
        e = self.norm(e)
        r = self.ge0(e, strict)
        if r is not None:
            return r
        if not e.vars():
            return self.decide_sum(e, strict)
        self.settle(e)
        r = self.ge0(e, strict)
        if r is not None:
            return r
        # constant-width symbols first: makes leftovers exact
        if self.choose() == 0:
            self.assume(e, strict)
            return True
        self.assume(-e, not strict)
        return False

    def eq0(self, e):
        e = self.norm(e)
        r = self.is_zero(e)
        if r is not None:
            return r
        if self.decide(e):
            return self.decide(-e)
        return False

    # ---------------------------------------------------------------- assumptions
    def grid(self, e):
        """Lin g with e an integer multiple of 2^g."""
        e = self.norm(e)
        exps = []
        for (L, m), c in e.d.items():
            o, s = _v2(c)
            if o.denominator != 1:
                raise Undecided("non-dyadic coefficient")
            x = L + s
            if x not in exps:
                exps.append(x)
        if not exps:
            return None
        for x in exps:
            if all(self.ent_lin(y - x) for y in exps):
                return self.lin(x)
        best = exps[0]
        for y in exps[1:]:
            if not self.decide_lin(y - best):
                best = y
        return self.lin(best)

    def assume(self, e, strict=False):
        e = self.norm(e)
        if strict:
            g = self.grid(e)
            if g is None:
                raise Infeasible()
            e = self.norm(e.shift(-g)) - 1
        r = self.ge0(e)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        if not self._tighten(e, True):
            self.rel.append(e)
            self._tighten(e, False)
        self._propagate()

    def _propagate(self):
        if self._busy:
            return
        self._busy = True
        try:
            for _ in range(6):
                keep, changed = [], False
                todo = self.rel
                self.rel = []
                for i, c in enumerate(todo):
                    c = self.norm(c)
                    f = self._flags(c)
                    if f[0]:
                        changed = True
                        continue
                    if f[3]:
                        raise Infeasible()
                    if not c.vars():
                        if not self.decide_sum(c):
                            raise Infeasible()
                        continue
                    self.rel = keep + todo[i + 1:]
                    if self._tighten(c, True):
                        changed = True
                        continue
                    keep.append(c)
                self.rel = keep
                if not changed:
                    break
        finally:
            self._busy = False

    def _tighten(self, e, exact):
        """Turn e >= 0 into a box bound. exact: only when equivalent."""
        e = self.norm(e)
        vs = sorted(e.vars())
        info = []
        for v in vs:
            co = self._coef(e, v)
            p = co.as_pow2()
            if p is None:
                continue
            info.append((v, p))
        done = False
        for v, (c, L) in info:
            rest = e - Expr.var(v) * Expr.pow2(L, c)
            if rest.vars() and v in rest.vars():
                continue
            C = abs(c)
            scaled = rest.shift(-L) * Expr.const(Fraction(1, 1) / C)
            if C != 1:
                # only powers of two handled exactly
                if rest.vars() or scaled.as_const() is None:
                    continue
                q = scaled.as_const()
                fl = Expr.const(q.numerator // q.denominator)
                if c > 0:
                    self._set_lo(v, -fl)
                else:
                    self._set_hi(v, fl)
                return True
            if exact:
                fl = self._floor_nofork(scaled)
                if fl is None and not scaled.vars():
                    fl = self.floor1(scaled)
                if fl is None or self.norm(fl).vars():
                    continue
                if c > 0:
                    self._set_lo(v, -fl)
                else:
                    self._set_hi(v, fl)
                return True
            # inexact: use the maximum of rest
            mx = self._corners(scaled, False)
            if len(mx) != 1:
                continue
            fl = self.floor1(mx[0])
            if c > 0:
                self._set_lo(v, -fl, weak=True)
            else:
                self._set_hi(v, fl, weak=True)
            done = True
        return done if not exact else False

    def _set_lo(self, v, lo, weak=False):
        if v in self.dsub:
            return
        lo = self.norm(lo)
        olo, ohi = self.box[v]
        if not self.decide_sum(self.norm(lo - olo)):
            return
        self.box[v] = (lo, ohi)
        self._nonempty(v)

    def _set_hi(self, v, hi, weak=False):
        if v in self.dsub:
            return
        hi = self.norm(hi)
        olo, ohi = self.box[v]
        if not self.decide_sum(self.norm(ohi - hi)):
            return
        self.box[v] = (olo, hi)
        self._nonempty(v)

    def _nonempty(self, v):
        lo, hi = self.box[v]
        d = self.norm(hi - lo)
        if not self.decide_sum(d):
            raise Infeasible()
        if self.is_zero(d) is True:
            self.dsub[v] = self.norm(lo)
            self.approx = self.approx
            if self.rel:
                self._propagate()

    def split_small(self, v):
        """v has a constant small range: split off its lowest value."""
        lo, hi = self.box[v]
        if self.choose() == 0:
            self._set_hi(v, lo)
        else:
            self._set_lo(v, lo + 1)
        self._propagate()

    # ---------------------------------------------------------------- floor / mod
    def _split_terms(self, e, fork=True):
        """integer-valued part / fractional part by exponent."""
        for _ in range(100):
            ip, fr, redo = {}, {}, None
            for (L, m), c in e.d.items():
                o, s = _v2(c)
                if o.denominator != 1:
                    fr[(L, m)] = c
                    continue
                r = self.ent_lin(L + s)
                if r is True:
                    ip[(L, m)] = c
                elif r is False:
                    dg = _naf(o.numerator)
                    if len(dg) < 2 or len(dg) > 4 or dg[-1][0] < 6:
                        fr[(L, m)] = c
                        continue
                    for k, sg in dg:
                        r = self.ent_lin(L + s + k)
                        if r is None:
                            redo = L + s + k
                            break
                        d = ip if r else fr
                        d[(L, m)] = d.get((L, m), 0) + sg * Fraction(2) ** (s + k)
                    if redo is not None:
                        break
                else:
                    redo = L + s
                    break
            if redo is None:
                return Expr(ip), Expr(fr)
            if not fork:
                return None
            self.decide_lin(redo)
            e = self.norm(e)
        raise Undecided("term split")

    def _floor_nofork(self, e):
        e = self.norm(e)
        sp = self._split_terms(e, fork=False)
        if sp is None:
            return None
        ip, fr = sp
        if fr.is_zero():
            return ip
        for j in (0, -1, 1, -2, 2):
            if self.ge0(fr - j) is True and self.ge0(Expr.const(j + 1) - fr, True) is True:
                return ip + j
        return None

    def small_range(self, v):
        lo, hi = self.box[v]
        c = self.norm(hi - lo).as_const()
        return c is not None and c <= 3

    def floor1(self, e):
        e = self.norm(e)
        k = e.as_const()
        if k is not None:
            return Expr.const(k.numerator // k.denominator)
        for _ in range(60):
            e = self.norm(e)
            ip, fr = self._split_terms(e)
            e = ip + fr
            if fr.is_zero():
                return ip
            for j in (0, -1, 1, -2, 2):
                if self.ge0(fr - j) is True and self.ge0(Expr.const(j + 1) - fr, True) is True:
                    return ip + j
            vs = sorted(fr.vars())
            if not vs:
                j = 0
                if self.decide_sum(fr):
                    while self.decide_sum(self.norm(fr) - (j + 1)):
                        j += 1
                        if j > 8:
                            raise Undecided("floor of sum")
                else:
                    j = -1
                    while not self.decide_sum(self.norm(fr) - j):
                        j -= 1
                        if j < -8:
                            raise Undecided("floor of sum")
                e = ip + j
                return self.norm(e)
            # products: lump into a hull symbol
            lump = next((m for (_, m) in fr.d if len(m) > 1), None)
            if lump:
                self._lump(lump)
                continue
            small = [v for v in vs if self.small_range(v)]
            if small:
                self.split_small(small[0])
                continue
            # decompose the symbol with the widest contribution
            cand = None
            for v in vs:
                co = self._coef(fr, v)
                terms = list(co.d.items())
                ex = []
                for (L, m), c in terms:
                    o, s = _v2(c)
                    ex.append(L + s)
                if len(ex) != 1:
                    # use the smallest exponent
                    g = ex[0]
                    for x in ex[1:]:
                        if not self.decide_lin(x - g):
                            g = x
                    ex = [g]
                lo, hi = self.box[v]
                width = (hi - lo) * co
                f1 = self._flags(Expr.const(1) - width)
                f2 = self._flags(Expr.const(1) + width)
                spans = not ((f1[1]) and (f2[1]))
                crosses = True
                if spans:
                    cand = (v, self.lin(-ex[0]))
                    break
            if cand:
                self.decompose(*cand)
                continue
            # threshold split
            j = None
            for t in (0, 1, -1, 2, -2, 3, -3):
                r = self.ge0(fr - t)
                if r is None:
                    j = t
                    break
            if j is None:
                # far from zero: thresholds relative to the floor of the low corner
                los = self._corners(fr, True)
                if len(los) == 1 and not los[0].vars():
                    b = self.floor1(los[0])
                    e, fr, b = self.norm(e), self.norm(fr), self.norm(b)
                    ip2 = e - fr
                    for t in (0, 1, 2):
                        r = self.ge0(fr - b - t)
                        if r is None:
                            j = b + t
                            break
                        if r is False and t:
                            return ip2 + b + (t - 1)
                if j is None:
                    raise Undecided(f"floor of {e}")
            self.decide(fr - j)
        raise Undecided(f"floor of {e}")

    def _lump(self, m):
        e = Expr({(ZERO, m): Fraction(1)})
        los = self._corners(e, True)
        his = self._corners(e, False)

        def pick(xs, low):
            b = xs[0]
            for x in xs[1:]:
                d = self.norm(x - b)
                if self.decide_sum(d) != low:
                    b = x
            return self.norm(b)
        lo, hi = pick(los, True), pick(his, False)
        v = self.new_var("prod", lo, hi)
        self.prod[m] = (v,)
        self.deps.append((v, "prod", m))
        self.approx.append(f"product {m} abstracted by its hull")
        self._nonempty(v)

    def decompose(self, v, m):
        """v = v1*2^m + v0"""
        lo, hi = self.box[v]
        m = self.lin(m)
        if self.ent_lin(m - 1) is not True:
            if not self.decide_lin(m - 1):
                return
        lo1 = self.floor1(lo.shift(-m))
        hi1 = self.floor1(hi.shift(-m))
        lo, hi = self.norm(lo), self.norm(hi)
        m = self.lin(m)
        lo1, hi1 = self.norm(lo1), self.norm(hi1)
        same = self.eq0(hi1 - lo1)
        lo, hi, lo1, hi1, m = self.norm(lo), self.norm(hi), self.norm(lo1), self.norm(hi1), self.lin(m)
        full = Expr.pow2(m)
        if same:
            v0 = self.new_var(v.split(".")[0] + "l", lo - lo1 * full, hi - lo1 * full)
            self.dsub[v] = lo1 * full + Expr.var(v0)
            self.decomp[v] = (None, v0, lo1, m)
            self._nonempty(v0)
            return
        v1 = self.new_var(v.split(".")[0] + "h", lo1, hi1)
        v0 = self.new_var(v.split(".")[0] + "l", Expr.const(0), full - 1)
        self.dsub[v] = Expr.var(v1) * full + Expr.var(v0)
        self.decomp[v] = (v1, v0, None, m)
        al = self.is_zero(lo - lo1 * full)
        ah = self.is_zero(hi - hi1 * full - (full - 1))
        self._nonempty(v0)
        self._nonempty(v1)
        if al is not True:
            self.assume(Expr.var(v) - lo)
        if ah is not True:
            self.assume(hi - Expr.var(v))

    def floor_div(self, e, K):
        """floor(e / 2^K)"""
        return self.floor1(self.norm(e).shift(-self.lin(K)))

    def mod_pow2(self, e, K):
        return self.norm(e) - self.floor_div(e, K).shift(K)

    # ---------------------------------------------------------------- double precision
    def fl(self, e, what="", p=53):
        """Result of an IEEE double operation whose exact value is e."""
        e = self.norm(e)
        if e.is_zero() or e.as_pow2() is not None and e.as_pow2()[0] in (1, -1):
            return e
        if len(e.d) == 1:
            (L, mm), c = next(iter(e.d.items()))
            if abs(_v2(c)[0].numerator) == 1 and len(mm) == 1:
                pass
        g = self.grid(e)
        e = self.norm(e)
        if self._fits(e, g, p):
            return e
        lim = Expr.pow2(g + p)
        self.settle(lim - e)
        self.settle(lim + e)
        if self.decide(lim - e) and self.decide(self.norm(lim + e)):
            return self.norm(e)
        e = self.norm(e)
        if len(e.d) == 2 and all(not mm for _, mm in e.d):
            # 2^A +- 2^B with A - B >= 54 rounds to 2^A
            ps = [Expr({k: c}).as_pow2() for k, c in e.d.items()]
            if all(p is not None and abs(p[0]) == 1 for p in ps):
                for i in (0, 1):
                    big, small = ps[i], ps[1 - i]
                    if self.decide_lin(self.lin(big[1] - small[1]) - (p + 1)):
                        return self.norm(Expr.pow2(self.lin(big[1])) * big[0])
                e = self.norm(e)
        g = self.lin(g)
        if self._fits(e, g, p + 1):
            return self._fl1(e, g)
        # rounding is monotone: an interval with representable end points is kept
        H = Fraction(1, 2)
        for lo, hi in ((H, Fraction(1)), (Fraction(0), H), (-Fraction(1), -H), (-H, Fraction(0)),
                       (Fraction(0), Fraction(1)), (-Fraction(1), Fraction(0))):
            if self.ge0(e - Expr.const(lo)) is True and self.ge0(Expr.const(hi) - e) is True:
                if hi - lo == 1:
                    mid = (lo + hi) / 2
                    up = self.decide(e - Expr.const(mid))
                    e = self.norm(e)
                    lo, hi = (mid, hi) if up else (lo, mid)
                g = self.lin(g)
                y = self.new_var("fl", Expr.const(lo).shift(-g), Expr.const(hi).shift(-g))
                self.deps.append((y, "fl", e.shift(-g)))
                self.approx.append("inexact double operation kept as an interval " + what)
                return Expr.var(y).shift(g)
        g = self.lin(g)
        e = self.norm(e)
        lim = Expr.pow2(g + p + 1)
        if self.decide(lim - e) and self.decide(self.norm(lim + e)):
            return self._fl1(self.norm(e), self.lin(g))
        # more: unknown rounding error
        self.approx.append("inexact double operation " + what)
        raise Undecided("inexact double operation " + what)

    def _fl1(self, e, g):
        """one excess bit: round half to even at 2^(g+1)"""
        n = e.shift(-g)
        q = self.floor_div(n, 2)           # n = 4q + r
        r = self.norm(n - q * 4)
        r = self.floor1(r)
        if self.eq0(r):
            return self.norm(e)
        r = self.norm(r)
        if self.eq0(r - 2):
            return self.norm(e)
        if self.eq0(self.norm(r) - 1):
            return self.norm(self.norm(e) - Expr.pow2(g))
        return self.norm(self.norm(e) + Expr.pow2(g))

    def _fits(self, e, g, bits):
        lim = Expr.pow2(g + bits)
        return self.ge0(lim - e) is True and self.ge0(lim + e) is True

    # ---------------------------------------------------------------- witnesses
    def _assign(self, pt, v, x):
        """Record x for derived symbol v and for the symbols v was decomposed into; False: outside the cell."""
        if x.denominator != 1:
            return False
        pt[v] = x
        if v in self.decomp:
            v1, v0, lo1, m = self.decomp[v]
            full = Fraction(2) ** self.lin(m).at(pt)
            if v1 is None:
                return self._assign(pt, v0, x - self.norm(lo1).at(pt) * full)
            q = x // full
            return self._assign(pt, v1, Fraction(q)) and self._assign(pt, v0, x - q * full)
        if v in self.dsub:
            return self.norm(self.dsub[v]).at(pt) == x
        lo, hi = self.box[v]
        return self.norm(lo).at(pt) <= x <= self.norm(hi).at(pt)

    def witness(self, pred, tries=400):
        """Search an integer point of the cell (parameters + symbols) satisfying pred(point)."""
        import random
        rnd = random.Random(7)
        derived = [d for d in self.deps if d[1] in ("prod", "fl", "uf")]
        dsyms = set()
        todo = [d[0] for d in derived]
        while todo:
            x = todo.pop()
            dsyms.add(x)
            if x in self.decomp:
                todo += [y for y in self.decomp[x][:2] if y]
        base = [v for v in self.box if v not in self.dsub and v not in dsyms]
        for pp in self.P.points():
            pt0 = dict(pp)
            if any(abs(x) > 300 for x in pt0.values()):
                continue
            rngs = {}
            ok = True
            for v in base:
                try:
                    lo, hi = (self.norm(x).at(pt0) for x in self.box[v])
                except KeyError:
                    ok = False
                    break
                if lo > hi or lo.denominator != 1 or hi.denominator != 1:
                    ok = False
                    break
                rngs[v] = (int(lo), int(hi))
            if not ok:
                continue
            n = 1
            for lo, hi in rngs.values():
                n = min(n * (hi - lo + 1), 10 ** 6)
            combos = []
            if n <= 64:
                import itertools
                combos = itertools.product(*[range(lo, hi + 1) for lo, hi in rngs.values()])
            else:
                def gen():
                    for _ in range(24):
                        yield [rnd.choice([lo, hi, lo + (hi - lo) // 2, rnd.randint(lo, hi),
                                           min(hi, lo + 1), max(lo, hi - 1)]) for lo, hi in rngs.values()]
                combos = gen()
            for vals in combos:
                pt = dict(pt0)
                pt.update(zip(rngs, vals))
                try:
                    bad = False
                    for v, kind, m in derived:
                        if kind == "prod":
                            x = Fraction(1)
                            for y in m:
                                x *= self.norm(Expr.var(y)).at(pt)
                        elif kind == "fl":
                            x = Fraction(float(self.norm(m).at(pt)))
                        else:
                            fn, e, pars = m
                            x = Fraction(fn(self.norm(e).at(pt), [self.lin(q).at(pt) for q in pars]))
                        if not self._assign(pt, v, x):
                            bad = True
                            break
                    if bad or any(self.norm(c).at(pt) < 0 for c in self.rel):
                        continue
                    if pred(pt):
                        return pt
                except (KeyError, OverflowError):
                    continue
            tries -= 1
            if tries <= 0:
                break
        return None


class Path:
    def __init__(self, ctx, result, error):
        self.ctx = ctx
        self.result = result
        self.error = error


def explore(mk, run, max_paths=20000, deadline=None):
    """Enumerate the trace partition: mk(prefix)->Ctx; run(ctx)->result."""
    import time
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        if deadline and time.process_time() > deadline:
            yield Path(None, None, Undecided("analysis time budget"))
            return
        ctx = None
        n += 1
        if n > max_paths:
            yield Path(None, None, Undecided("too many paths"))
            return
        base = len(prefix)
        res, err = None, None
        try:
            ctx = mk(prefix)
            res = run(ctx)
        except Infeasible:
            err = Infeasible()
        except Undecided as u:
            err = u
        if ctx is None:
            continue
        # schedule siblings of the choices made beyond the given prefix
        for i in range(base, ctx.pos):
            for alt in range(ctx.prefix[i] + 1, ctx.arity[i]):
                stack.append(ctx.prefix[:i] + [alt])
        if isinstance(err, Infeasible):
            continue
        yield Path(ctx, res, err)
