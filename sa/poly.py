"""Linear forms over integer format parameters and the convex-polyhedra abstract domain
(constraint + generator representation, Chernikova's double description)."""
from fractions import Fraction
from math import gcd
from functools import reduce

INF = float("inf")


class Lin:
    """c + sum coef*param, integer coefficients, immutable, hashable."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    @staticmethod
    def var(name):
        return Lin(0, ((name, 1),))

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin(int(x))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for v, k in o.t:
            d[v] = d.get(v, 0) + k
        return Lin(self.c + o.c, tuple(sorted((v, k) for v, k in d.items() if k)))
    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((v, -k) for v, k in self.t))

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((v, q * k) for v, q in self.t))
    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def coef(self, v):
        for w, k in self.t:
            if w == v:
                return k
        return 0

    def subst(self, m):
        """m: var -> Lin"""
        if not any(v in m for v, _ in self.t):
            return self
        r = Lin(self.c)
        for v, k in self.t:
            r = r + (m[v] * k if v in m else Lin(0, ((v, k),)))
        return r

    def at(self, pt):
        return self.c + sum(k * pt[v] for v, k in self.t)

    def noconst(self):
        return Lin(0, self.t) if self.c else self

    def __repr__(self):
        s = ""
        for v, k in self.t:
            s += ("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + v
        if self.c or not s:
            s += f"{self.c:+d}"
        return s[1:] if s[0] == "+" else s


def _norm(v):
    g = reduce(gcd, v, 0)
    if g > 1:
        return tuple(x // g for x in v)
    return tuple(v)


class Poly:
    """Immutable convex polyhedron over named integer parameters.

    rays: generator vectors (x0, x1..xn) of the homogenised cone; lines: its lineality space.
    """
    __slots__ = ("vars", "idx", "cons", "rays", "lines", "_kids", "_rng", "memo", "_pts")

    def __init__(self, vars_, cons, rays, lines):
        self.vars = vars_
        self.idx = {v: i + 1 for i, v in enumerate(vars_)}
        self.cons = cons          # list of (vector, Lin)
        self.rays = rays
        self.lines = lines
        self._kids = {}
        self._rng = {}
        self.memo = {}
        self._pts = None

    @staticmethod
    def top(vars_):
        vars_ = tuple(vars_)
        n = len(vars_) + 1
        e0 = tuple(1 if i == 0 else 0 for i in range(n))
        lines = [tuple(1 if i == j else 0 for i in range(n)) for j in range(1, n)]
        return Poly(vars_, [(e0, None)], [e0], lines)

    def vec(self, L):
        v = [0] * (len(self.vars) + 1)
        v[0] = L.c
        for n, k in L.t:
            v[self.idx[n]] = k
        return v

    def add_var(self, name):
        key = ("var", name)
        if key in self._kids:
            return self._kids[key]
        ext = lambda v: tuple(v) + (0,)
        n = len(self.vars) + 2
        P = Poly(self.vars + (name,), [(ext(c), L) for c, L in self.cons],
                 [ext(r) for r in self.rays],
                 [ext(l) for l in self.lines] + [tuple(1 if i == n - 1 else 0 for i in range(n))])
        self._kids[key] = P
        return P

    @property
    def empty(self):
        return not any(r[0] > 0 for r in self.rays)

    def rng(self, L):
        """(min, max) of L over the polyhedron, rounded to integers inward; +-INF if unbounded."""
        r = self._rng.get(L)
        if r is not None:
            return r
        h = self.vec(L)
        lo, hi = INF, -INF
        unb_lo = unb_hi = False
        for l in self.lines:
            if sum(a * b for a, b in zip(h, l)):
                unb_lo = unb_hi = True
        for g in self.rays:
            d = sum(a * b for a, b in zip(h, g))
            if g[0] > 0:
                q = Fraction(d, g[0])
                if q < lo:
                    lo = q
                if q > hi:
                    hi = q
            else:
                if d > 0:
                    unb_hi = True
                elif d < 0:
                    unb_lo = True
        if lo == INF:
            r = (INF, -INF)
        else:
            lo = -INF if unb_lo else -((-lo.numerator) // lo.denominator)
            hi = INF if unb_hi else hi.numerator // hi.denominator
            r = (lo, hi)
        self._rng[L] = r
        return r

    def ge0(self, L):
        """True: L>=0 everywhere; False: L<0 everywhere; None otherwise."""
        lo, hi = self.rng(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        return None

    def add(self, L):
        """self meet {L >= 0}"""
        if L in self._kids:
            return self._kids[L]
        g = reduce(gcd, (k for _, k in L.t), 0)
        M = L
        if g > 1:
            M = Lin(L.c // g, tuple((v, k // g) for v, k in L.t))
        lo, hi = self.rng(M)
        if lo >= 0:
            self._kids[L] = self
            return self
        P = self._meet(M)
        self._kids[L] = P
        return P

    def _meet(self, L):
        h = self.vec(L)
        dot = lambda g: sum(a * b for a, b in zip(h, g))
        lines = self.lines
        for i, l in enumerate(lines):
            d = dot(l)
            if d:
                if d < 0:
                    l = tuple(-x for x in l)
                    d = -d
                nl = []
                for j, m in enumerate(lines):
                    if j != i:
                        e = dot(m)
                        nl.append(_norm([d * x - e * y for x, y in zip(m, l)]) if e else m)
                nr = []
                for r in self.rays:
                    e = dot(r)
                    nr.append(_norm([d * x - e * y for x, y in zip(r, l)]) if e else r)
                nr.append(_norm(l))
                return Poly(self.vars, self.cons + [(tuple(h), L)], nr, nl)
        pos, zer, neg = [], [], []
        for r in self.rays:
            d = dot(r)
            (pos if d > 0 else neg if d < 0 else zer).append((r, d))
        cons = self.cons
        sat = {}
        for r, _ in pos + zer + neg:
            sat[r] = frozenset(i for i, (c, _) in enumerate(cons)
                               if sum(a * b for a, b in zip(c, r)) == 0)
        allr = [r for r, _ in pos + zer + neg]
        new = []
        for p, dp in pos:
            for n, dn in neg:
                common = sat[p] & sat[n]
                adj = True
                for q in allr:
                    if q is not p and q is not n and common <= sat[q]:
                        adj = False
                        break
                if adj:
                    new.append(_norm([dp * b - dn * a for a, b in zip(p, n)]))
        rays = [r for r, _ in pos] + [r for r, _ in zer] + new
        keep = cons + [(tuple(h), L)]
        return Poly(self.vars, keep, rays, lines)

    def constraints(self):
        return [L for _, L in self.cons if L is not None]

    def points(self, limit=60):
        """Some integer points of the polyhedron (for witnesses)."""
        if self._pts is not None:
            return self._pts
        import itertools
        import random
        rnd = random.Random(1)
        verts = [tuple(Fraction(x, r[0]) for x in r[1:]) for r in self.rays if r[0] > 0]
        dirs = [r[1:] for r in self.rays if r[0] == 0] + [l[1:] for l in self.lines] \
            + [tuple(-x for x in l[1:]) for l in self.lines]
        out, seen = [], set()

        def consider(pt):
            pt = tuple(pt)
            if pt in seen:
                return
            seen.add(pt)
            for c, L in self.cons:
                if c[0] + sum(a * b for a, b in zip(c[1:], pt)) < 0:
                    return
            out.append(dict(zip(self.vars, pt)))

        import math
        for tries in range(3000):
            if len(out) >= limit:
                break
            if not verts:
                break
            k = rnd.randint(1, min(4, len(verts)))
            vs = rnd.sample(verts, k)
            w = [rnd.randint(1, 6) for _ in vs]
            s = sum(w)
            base = [sum(v[i] * wi for v, wi in zip(vs, w)) / s for i in range(len(self.vars))]
            if tries < len(verts):
                base = list(verts[tries])
            if dirs and tries >= len(verts):
                for d in rnd.sample(dirs, rnd.randint(0, min(4, len(dirs)))):
                    m = rnd.choice([0, 1, 1, 2, 3, 5, 9])
                    base = [b + m * x for b, x in zip(base, d)]
            for f in (math.floor, math.ceil, round):
                consider([f(b) for b in base])
        self._pts = out
        return out
