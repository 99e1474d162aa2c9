"""C17: the pipelined entities.  The architecture is elaborated for symbolic formats and enumerated generics; the value
of a signal at cycle t is evaluated backwards through drivers, registers and instances to the inputs of the cycles
0..t, from an arbitrary (unknown) register state before cycle 0.  With t = the documented latency the outputs must be
the package function of the inputs of cycle 0, so any missing, surplus or bypassed register shows as a difference."""
from c_vhdl import *
from summ import _find
import vabs
from vabs import Obj, Scope, Ty, SubP
from vhdl import N

EDGE = ("rising_edge",)


class Sig(Obj):
    """signal: the value is that of the current cycle"""
    def __init__(self, ent, ty, name, init):
        self.ent, self.ty, self.cls, self.name, self.init = ent, ty, "signal", name, init
        self.drv = []
        self.pending = None

    @property
    def value(self):
        return self.ent.top.read(self)

    @value.setter
    def value(self, x):
        raise Undecided("variable assignment to a signal")


class Reg(Obj):
    """variable of a process: keeps its value between activations"""
    def __init__(self, proc, ty, name, init):
        self.proc, self.ty, self.cls, self.name, self.init = proc, ty, "variable", name, init
        self.cur = None

    @property
    def value(self):
        if self.cur is None:
            self.cur = self.proc.old_var(self)
        return self.cur

    @value.setter
    def value(self, x):
        self.cur = x


class Top:
    def __init__(self, s, units):
        self.s, self.I, self.c = s, s.I, s.c
        self.units = units          # name -> (entity, arch, scope parents)
        self.now = 0
        self.cache = {}
        self.busy = set()
        self.edge = False

    def read(self, sig):
        return self.at(sig, self.now)

    def at(self, sig, t):
        if sig.pending is not None:
            return sig.pending
        k = (id(sig), t)
        if k in self.cache:
            return self.cache[k]
        if k in self.busy:
            raise Undecided(f"combinational loop through {sig.name}")
        self.busy.add(k)
        save = self.now
        try:
            self.now = t
            v = self.compute(sig, t)
        finally:
            self.now = save
            self.busy.discard(k)
        self.cache[k] = v
        return v

    def unknown(self, ty, name):
        """arbitrary state"""
        c = self.c
        b = ty.base
        if b == "std_logic":
            return Bit("01"[c.choose(2)])
        if b == "boolean":
            return c.choose(2) == 0
        if b in vabs.VECS:
            n = self.I.rlen(*ty.con)
            n = c.lin(self.I.L(n))
            x = c.new_input("state_" + name, Expr(), Expr.pow2(n) - 1)
            l, r, d = ty.con
            return Vec([(self.I.norm_i(n), x)], l, r, d, b)
        if ty.decl is not None and ty.decl.def_.kind == "arraytype" and ty.con:
            l, r, dr = ty.con
            el = self.I.resolve(ty.decl.def_.elem, self.s.sc)
            n = self.I.cint(self.I.rlen(l, r, dr))
            return vabs.ArrV(b, [self.unknown(el, f"{name}{i}") for i in range(n)], self.I.cint(l), dr)
        if ty.decl is not None and ty.decl.def_.kind == "record":
            return Rec(b, {n: self.unknown(self.I.resolve(t, self.s.sc), name + "." + n) for n, t in ty.decl.def_.fields})
        raise Undecided(f"unknown state of type {b}")

    def compute(self, sig, t):
        if not sig.drv:
            if sig.init is not None:
                return sig.init
            return self.I.default(sig.ty, self.s.sc)
        if len(sig.drv) == 1 and not sig.drv[0].partial:
            return sig.drv[0].get(sig, t)
        v = self.I.default(sig.ty, self.s.sc)
        for d in sig.drv:
            v = d.get_into(sig, t, v)
        return v


class Drv:
    partial = False

    def get_into(self, sig, t, v):
        raise Undecided("several drivers of " + sig.name)


class Input(Drv):
    def __init__(self, fn):
        self.fn = fn

    def get(self, sig, t):
        return self.fn(t)


class Assoc(Drv):
    """port of an instance: expression in the scope of the parent"""
    def __init__(self, top, e, sc):
        self.top, self.e, self.sc = top, e, sc

    def get(self, sig, t):
        I = self.top.I
        return I.convert(I.eval(self.e, self.sc, sig.ty), sig.ty, self.sc)


class Const(Drv):
    def __init__(self, v):
        self.v = v

    def get(self, sig, t):
        return self.v


class FromPort(Drv):
    def __init__(self, inner, target, sc, top):
        self.inner, self.target, self.sc, self.top = inner, target, sc, top
        self.partial = target.kind != "name"

    def get(self, sig, t):
        return self.top.I.convert(self.top.at(self.inner, t), sig.ty, self.sc)

    def get_into(self, sig, t, v):
        return put(self.top, sig, self.target, self.sc, v, self.top.at(self.inner, t))


def put(top, sig, target, sc, old, new):
    """old with the part named by target replaced"""
    tmp = Scope("", sc)
    nm = base_name(target)
    tmp.names[nm] = Obj(old, sig.ty, "variable", nm)
    top.I.assign(target, new, tmp)
    return tmp.names[nm].value


def base_name(t):
    while t.kind != "name":
        if t.kind == "call":
            t = t.f
        elif t.kind in ("sel", "paren", "attr"):
            t = t.e
        else:
            raise Undecided("signal assignment target")
    return t.id


class Conc(Drv):
    """concurrent (conditional / selected) signal assignment"""
    def __init__(self, top, st, sc, target):
        self.top, self.st, self.sc, self.target = top, st, sc, target
        self.partial = target.kind != "name"

    def rhs(self, sig):
        I, st, sc = self.top.I, self.st, self.sc
        ty = sig.ty if not self.partial else None
        I.at(st, sc)
        if st.kind == "selassign":
            x = I.eval(st.sel, sc)
            for chs, e in st.alts:
                for ch in chs:
                    if ch.kind == "others" or I.equal(x, I.eval(ch, sc)):
                        return I.eval(e, sc, ty)
            raise Undecided("selected assignment without a match")
        for cnd, e in st.conds:
            if I.cond(cnd, sc):
                return I.eval(e, sc, ty)
        if st.e is None:
            raise Undecided("conditional assignment that keeps the value")
        return I.eval(st.e, sc, ty)

    def get(self, sig, t):
        return self.top.I.convert(self.rhs(sig), sig.ty, self.sc)

    def get_into(self, sig, t, v):
        return put(self.top, sig, self.target, self.sc, v, self.rhs(sig))


class Proc(Drv):
    def __init__(self, top, st, sc):
        self.top, self.st, self.psc = top, st, sc
        self.runs = {}
        self.writes = set()
        self.t = None
        if any(x.kind == "broken" for x in st.body):
            raise Undecided(st.body[0].why)
        self.clocked = self.find_edge(st.body)
        self.body = st.body
        if not self.clocked:
            if st.body and st.body[0].kind == "wait" and st.body[0].until is not None and self.is_edge(st.body[0].until):
                self.clocked, self.body = True, st.body[1:]
            elif any(x.kind == "wait" for x in st.body):
                raise Undecided("wait statement")
            elif not any(x.kind == "name" and x.id == "all" for x in st.sens):
                have = {x.id for x in st.sens if x.kind == "name"}
                need = {n for n in self.reads(st.body) if isinstance(sc.lookup(n), Sig)}
                if need - have:
                    if self.mentions(st.body, "falling_edge"):
                        raise Finding("a register is updated on the falling clock edge", kind="edge")
                    raise Finding(f"a process that is not clocked is not sensitive to {sorted(need - have)}: its outputs keep stale values", kind="sens")
        else:
            # clocked: everything outside of the edge condition would be asynchronous
            live = [x for x in st.body if x.kind != "nullstmt"]
            if len(live) != 1 or live[0].kind != "if" or not self.is_edge(live[0].arms[0][0]) or len(live[0].arms) != 1 or live[0].els:
                raise Undecided("asynchronous control in a clocked process")
            self.body = live[0].arms[0][1]

    def mentions(self, x, name):
        if isinstance(x, (list, tuple)):
            return any(self.mentions(y, name) for y in x)
        if isinstance(x, N):
            if x.kind == "name" and x.id == name:
                return True
            return any(self.mentions(y, name) for y in vars(x).values() if isinstance(y, (list, tuple, N)))
        return False

    def is_edge(self, e):
        if e.kind == "paren":
            return self.is_edge(e.e)
        if e.kind == "call" and e.f.kind == "name" and e.f.id == "rising_edge":
            a = e.args[0][1]
            self.clk = a.id if a.kind == "name" else None
            return True
        if e.kind == "bin" and e.op == "and":
            for x, y in ((e.l, e.r), (e.r, e.l)):
                x, y = self.strip(x), self.strip(y)
                if x.kind == "attr" and x.a == "event" and y.kind == "bin" and y.op == "=" and self.strip(y.r).kind == "chr" and self.strip(y.r).v == "1":
                    self.clk = x.e.id if x.e.kind == "name" else None
                    return True
        return False

    def strip(self, e):
        while e.kind == "paren":
            e = e.e
        return e

    def find_edge(self, body):
        found = []

        def walk(x):
            if isinstance(x, N):
                if x.kind == "if" and any(self.is_edge(cnd) for cnd, _ in x.arms):
                    found.append(x)
                for y in x.__dict__.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(body)
        return bool(found)

    def reads(self, body):
        out = set()

        def walk(x, tgt=False):
            if isinstance(x, N):
                if x.kind == "attr" and x.a in ("range", "reverse_range", "length", "left", "right", "high", "low"):
                    return
                if x.kind == "name" and not tgt:
                    out.add(x.id)
                for k, y in x.__dict__.items():
                    if k == "target" and isinstance(y, N) and y.kind == "name":
                        continue
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(body)
        return out

    def old_var(self, var):
        """value of a process variable left by the previous activation"""
        if not self.clocked:
            raise Undecided(f"process variable {var.name} keeps its value in a combinational process")
        if self.t <= 0:
            return self.top.unknown(var.ty, var.name)
        return self.run(self.t - 1)[1][var.name].value

    def run(self, t):
        """signals assigned by the activation at cycle t"""
        if t in self.runs:
            return self.runs[t]
        top, I = self.top, self.top.I
        sc = Scope("process", self.psc)
        pvars = {}
        save = (top.now, self.t)
        top.now, self.t = t, t
        try:
            for d in self.st.decls:
                if d.kind == "object" and d.cls == "variable":
                    ty = I.resolve(d.type, sc)
                    snap = _Snap(self, t)
                    sc.names[d.name] = pvars[d.name] = Reg(snap, ty, d.name, None)
                else:
                    I.declare(sc, [d])
            nxt = {}
            self.exec(self.body, sc, nxt)
        finally:
            top.now, self.t = save
        self.runs[t] = (nxt, pvars)
        return self.runs[t]

    def exec(self, body, sc, nxt):
        I = self.top.I
        for s in body:
            I.at(s, sc)
            if s.kind == "sigassign":
                nm = base_name(s.target)
                sig = sc.lookup(nm)
                if not isinstance(sig, Sig):
                    raise Undecided("target of a signal assignment")
                if s.delay:
                    pass        # delays of zero-delay simulation models do not change the cycle behaviour
                val, done = None, False
                ty = sig.ty if s.target.kind == "name" else None
                for cnd, e in s.conds:
                    if I.cond(cnd, sc):
                        val, done = I.eval(e, sc, ty), True
                        break
                if not done:
                    if s.e is None:
                        continue
                    val = I.eval(s.e, sc, ty)
                if s.target.kind == "name":
                    nxt[id(sig)] = I.convert(val, sig.ty, sc)
                else:
                    old = nxt.get(id(sig))
                    if old is None:
                        old = self.hold(sig, self.t)
                    nxt[id(sig)] = put(self.top, sig, s.target, sc, old, val)
            elif s.kind == "if":
                for cnd, b in s.arms:
                    if I.cond(cnd, sc):
                        self.exec(b, sc, nxt)
                        break
                else:
                    if s.els is not None:
                        self.exec(s.els, sc, nxt)
            elif s.kind == "case":
                self.case(s, sc, nxt)
            elif s.kind == "for":
                l, r, dr = I.drange(s.range, sc)
                n = I.cint(I.rlen(l, r, dr))
                for i in range(n):
                    inner = Scope("", sc)
                    inner.names[s.var] = Obj(I.norm_i(I.L(l) + (i if dr == "to" else -i)), Ty("integer"), "constant", s.var)
                    self.exec(s.body, inner, nxt)
            else:
                I.stmt(s, sc)

    def case(self, s, sc, nxt):
        I = self.top.I
        x = I.eval(s.e, sc)
        for chs, b in s.alts:
            for ch in chs:
                if ch.kind == "others" or I.equal(x, I.eval(ch, sc)):
                    self.exec(b, sc, nxt)
                    return

    def hold(self, sig, t):
        """value at cycle t when nothing was assigned up to the activation at t (clocked: the present value)"""
        if not self.clocked:
            raise Undecided(f"{sig.name} is not assigned on every path of a combinational process")
        return self.top.at(sig, t)

    def get(self, sig, t):
        if not self.clocked:
            nxt, _ = self.run(t)
            if id(sig) not in nxt:
                raise Undecided(f"{sig.name} is not assigned on every path of a combinational process")
            return nxt[id(sig)]
        if t <= 0:
            return self.top.unknown(sig.ty, sig.name)
        nxt, _ = self.run(t - 1)
        if id(sig) in nxt:
            return nxt[id(sig)]
        return self.top.at(sig, t - 1)


class _Snap:
    def __init__(self, proc, t):
        self.proc, self.t = proc, t

    def old_var(self, var):
        p = self.proc
        if not p.clocked:
            raise Undecided(f"process variable {var.name} keeps its value in a combinational process")
        if self.t <= 0:
            return p.top.unknown(var.ty, var.name)
        return p.run(self.t - 1)[1][var.name].value


class Inst:
    def __init__(self, top, name, gmap, pmap, clk_ok=True):
        """gmap: generic -> value; pmap(name, sig) sets the drivers of the input ports"""
        self.top = top
        I, c = top.I, top.c
        u = top.units.get(name)
        if u is None:
            raise Missing(f"entity {name} not found in {HDL}")
        ent, arch, f = u
        if arch is None:
            raise Missing(f"architecture of {name} not found")
        sc = Scope(name, I.builtin, f)
        sc.used = [p for p in I.pkgs.values()]
        self.sc = sc
        for x in ("entity " + name,):
            c.funcs.add(f"{os.path.basename(f)}:{name}")
        for g in ent.generics:
            ty = I.resolve(g.type, sc)
            if g.name in gmap:
                v_ = gmap[g.name]
            elif g.default is not None:
                v_ = I.eval(g.default, sc, ty)
            else:
                raise VFail("Elaboration", f"generic {g.name} of {name} has no value", I.where())
            I.at(g, sc)
            sc.names[g.name] = Obj(I.convert(v_, ty, sc), ty, "constant", g.name)
        unknown = set(gmap) - {g.name for g in ent.generics}
        if unknown:
            raise Missing(f"entity {name} has no generic {sorted(unknown)}")
        self.ports = {}
        for p in ent.ports:
            ty = I.resolve(p.type, sc)
            s = Sig(self, ty, p.name, None)
            s.mode = p.mode
            s.default = p.default
            self.ports[p.name] = s
            sc.names[p.name] = s
        pmap(self)
        self.decls(ent.decls + arch.decls, sc)
        self.concs(arch.stmts, sc)

    def decls(self, ds, sc):
        I = self.top.I
        for d in ds:
            if d.kind == "object" and d.cls == "signal":
                I.at(d, sc)
                ty = I.resolve(d.type, sc)
                init = I.convert(I.eval(d.init, sc, ty), ty, sc) if d.init is not None else None
                sc.names[d.name] = Sig(self, ty, d.name, init)
            elif d.kind in ("component", "attrdecl", "attrspec"):
                if d.kind == "component":
                    sc.names[d.name] = ("component", d)
            else:
                I.declare(sc, [d])

    def drive(self, sc, target, drv):
        s = sc.lookup(base_name(target))
        if not isinstance(s, Sig):
            raise Undecided("driver target")
        s.drv.append(drv)

    def concs(self, sts, sc):
        top, I = self.top, self.top.I
        for st in sts:
            I.at(st, sc)
            k = st.kind
            if k in ("sigassign", "selassign"):
                self.drive(sc, st.target, Conc(top, st, sc, st.target))
            elif k == "process":
                p = Proc(top, st, sc)
                if p.clocked:
                    self.check_clk(p, sc)
                for nm in self.targets(st.body):
                    s = sc.lookup(nm)
                    if not isinstance(s, Sig):
                        raise Undecided("process target")
                    if s.drv:
                        raise Undecided(f"several drivers of {nm}")
                    s.drv.append(p)
            elif k == "ifgen":
                for cnd, b in st.arms:
                    if I.cond(cnd, sc):
                        self.gen(b, sc)
                        break
                else:
                    if st.els is not None:
                        self.gen(st.els, sc)
            elif k == "forgen":
                l, r, dr = I.drange(st.range, sc)
                n = I.cint(I.rlen(l, r, dr))
                for i in range(n):
                    inner = Scope("", sc)
                    inner.names[st.var] = Obj(I.norm_i(I.L(l) + (i if dr == "to" else -i)), Ty("integer"), "constant", st.var)
                    self.gen(st.body, inner)
            elif k == "block":
                inner = Scope("", sc)
                self.decls(st.decls, inner)
                self.concs(st.stmts, inner)
            elif k == "inst":
                self.inst(st, sc)
            elif k in ("assert", "pcall"):
                if k == "assert":
                    I.stmt(st, sc)
            else:
                raise Undecided("concurrent statement " + k)

    def check_clk(self, p, sc):
        s = sc.lookup(p.clk) if p.clk else None
        if not isinstance(s, Sig):
            raise Undecided("clock of a process")
        # the clock must be the clock input of the component
        seen = 0
        while isinstance(s, Sig) and seen < 20:
            seen += 1
            if len(s.drv) == 1 and isinstance(s.drv[0], Input):
                if s.name != "clk":
                    raise Finding(f"a register is clocked by {s.name}", kind="clock")
                return
            d = s.drv[0] if len(s.drv) == 1 else None
            if isinstance(d, Assoc) and d.e.kind == "name":
                s = d.sc.lookup(d.e.id)
            elif isinstance(d, Conc) and d.st.kind == "sigassign" and not d.st.conds and d.st.e.kind == "name":
                s = d.sc.lookup(d.st.e.id)
            else:
                break
        raise Undecided("clock of a process")

    def gen(self, b, sc):
        inner = Scope("", sc)
        self.decls(b.decls, inner)
        self.concs(b.stmts, inner)

    def targets(self, body):
        out = []

        def walk(x):
            if isinstance(x, N):
                if x.kind == "sigassign":
                    n = base_name(x.target)
                    if n not in out:
                        out.append(n)
                for y in x.__dict__.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
        walk(body)
        return out

    def inst(self, st, sc):
        top, I = self.top, self.top.I
        nm = st.unit.split(".")[-1]
        u = top.units.get(nm)
        if u is None:
            raise Undecided(f"instance of {nm}")
        ent = u[0]
        gm = self.assoc(st.generics, [g.name for g in ent.generics])
        pm = self.assoc(st.ports, [p.name for p in ent.ports])
        gvals = {}
        for g in ent.generics:
            if g.name in gm and gm[g.name].kind != "open":
                gvals[g.name] = I.eval(gm[g.name], sc, None)
                if isinstance(gvals[g.name], vabs.Agg):
                    ty = I.resolve(g.type, self.pkg_scope(sc))
                    gvals[g.name] = I.eval(gm[g.name], sc, ty)

        def ports(inner):
            for p in ent.ports:
                s = inner.ports[p.name]
                a = pm.get(p.name)
                if a is not None and a.kind == "open":
                    a = None
                if s.mode == "in":
                    if a is not None:
                        s.drv.append(Assoc(top, a, sc))
                    elif p.default is not None:
                        s.drv.append(Const(I.convert(I.eval(p.default, inner.sc, s.ty), s.ty, inner.sc)))
                    else:
                        raise VFail("Elaboration", f"input {p.name} is not connected", I.where())
                elif a is not None:
                    self.drive(sc, a, FromPort(s, a, sc, top))
        Inst(top, nm, gvals, ports)

    def pkg_scope(self, sc):
        return sc

    def assoc(self, lst, names):
        out = {}
        for i, (nm, a) in enumerate(lst):
            k = names[i] if nm is None else (nm.id if nm.kind == "name" else None)
            if k is None or k not in names:
                raise Undecided("association")
            out[k] = a
        return out


# --------------------------------------------------------------------------- obligations
def uf_any(s, c, kind, key, e, pars, W):
    g = _find(c, kind, key, e, pars)
    if g is not None:
        return g
    x = c.new_var(kind, Expr(), Expr.pow2(c.lin(W)) - 1)
    c.uf.append((kind, key, e, pars, x))
    c._nonempty(x)
    return c.norm(Expr.var(x))


def sum_any(kind, nargs):
    """package function as an uninterpreted function of the pattern, the formats and the mode"""
    def mk(s):
        def h(I, sub, a):
            c = I.c
            if len(a) != nargs:
                return NotImplemented
            x, af, rf, mode = a[:4]
            if not (isinstance(x, Vec) and isinstance(af, Rec) and isinstance(rf, Rec) and isinstance(mode, En)):
                return NotImplemented
            if not c.lin_eq0(c.lin(I.vlen(x) - s().width(af))):
                return NotImplemented
            if nargs == 5 and a[4] is True:
                want = s().call("cl_fix_round_fmt", [af, rf.f["f"], mode])
                for p, q in zip(s().fields(want), s().fields(rf)):
                    if not c.lin_eq0(c.lin(p - q)):
                        return NotImplemented
            e = c.norm(I.uval(x))
            W = s().width(rf)
            r = uf_any(s(), c, kind, (mode.name, a[4] if nargs == 5 else None), e, s().fields(af) + s().fields(rf), W)
            return I.mkvec(r, s().width(rf), "std_logic_vector")
        return h
    return mk


def units():
    out = {}
    for p, us in vabs.load_files(files()):
        for u in us:
            if u.kind == "entity":
                out[u.name] = [u, None, p]
    for p, us in vabs.load_files(files()):
        for u in us:
            if u.kind == "architecture" and u.entity in out:
                out[u.entity][1] = u
    return out


def entity(kind, reg, rm=None, sm=None, chk=True):
    def fn(c):
        try:
            return run(c, True)
        except Finding:
            c.events[:] = []
        return run(c, False)

    def run(c, summ):
        s = sess_with(c, {"cl_fix_round": sum_any("pround", 5), "cl_fix_saturate": sum_any("psat", 4)}) if summ else VSess(c)
        I = s.I
        top = Top(s, units())
        a = s.pfmt("a")
        # format of the result and documented latency
        def lt(x):
            return not c.decide_lin(c.lin(x))
        L = 0
        if kind == "round":
            r = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd(rm)]) if chk else s.pfmt("r")
            need = [rm != "Trunc_s" and lt(v("rF") - v("aF"))]
        elif kind == "saturate":
            r = s.fmt(v("rS"), v("rI"), v("aF"))
            need = [sm in ("Sat_s", "SatWarn_s") and (lt(v("rI") - v("aI")) or not c.lin_eq0(c.lin(v("rS") - v("aS"))))]
        else:
            r = s.pfmt("r")
            mid = s.call("cl_fix_round_fmt", [a, v("rF"), s.rnd(rm)])
            mS, mI, _ = s.fields(mid)
            need = [rm != "Trunc_s" and lt(v("rF") - v("aF")),
                    sm in ("Sat_s", "SatWarn_s") and (lt(v("rI") - mI) or not c.lin_eq0(c.lin(v("rS") - mS)))]
        if reg == "yes_s":
            L = len(need)
        elif reg == "auto_s":
            L = sum(need)
        gm = {"in_fmt_g": a, "out_fmt_g": r, "reg_mode_g": En("registermode_t", reg), "meta_width_g": I.norm_i(v("mw"))}
        if kind in ("round", "resize"):
            gm["round_g"] = s.rnd(rm)
        if kind in ("saturate", "resize"):
            gm["saturate_g"] = s.sat(sm)
        if not chk:
            gm["fmt_check_g"] = False
        env = {}

        def inp(name, t):
            k = (name, t)
            if k not in env:
                if name in ("in_valid", "rst"):
                    env[k] = Bit("01"[c.choose(2)])
                elif name == "in_data":
                    env[k] = s.data(f"data{t}", a)[0]
                elif name == "in_meta":
                    W = c.lin(v("mw"))
                    x = c.new_input(f"meta{t}", Expr(), Expr.pow2(W) - 1)
                    env[k] = s.vec(x, W)
                else:
                    raise Undecided(f"value of input {name}")
            return env[k]

        def ports(inst):
            for n, sg in inst.ports.items():
                if sg.mode == "in":
                    sg.drv.append(Input(lambda t, n=n: inp(n, t)))
        try:
            inst = Inst(top, "en_cl_fix_" + kind, gm, ports)
        except VFail as e:
            raise Finding(f"en_cl_fix_{kind} cannot be elaborated: {e}", kind="elab")
        for n in ("in_valid", "in_meta", "in_data", "out_valid", "out_meta", "out_data", "clk", "rst"):
            if n not in inst.ports:
                raise Missing(f"port {n} of en_cl_fix_{kind}")
        ov = top.at(inst.ports["out_valid"], L)
        valid = inp("in_valid", 0).v == "1" and all(inp("rst", t).v == "0" for t in range(L))
        b = I.bit_conc(ov)
        if b not in "01LH":
            raise Finding("out_valid is undefined", kind="valid")
        if (b in "1H") != valid:
            raise Finding(f"out_valid after the documented latency of {L} is {b} (in_valid={inp('in_valid', 0).v}, "
                          f"rst={[inp('rst', t).v for t in range(L)]})", kind="valid")
        if not valid:
            return
        om = top.at(inst.ports["out_meta"], L)
        im = inp("in_meta", 0)
        if not c.lin_eq0(c.lin(I.vlen(om) - v("mw"))):
            raise Finding("out_meta: width", kind="meta")
        if c.decide_lin(c.lin(v("mw")) - 1):
            s.same(I.uval(om), I.uval(im), "out_meta does not belong to the same item as out_valid")
        x = inp("in_data", 0)
        if kind == "round":
            want = s.call("cl_fix_round", [x, a, r, s.rnd(rm), chk])
        elif kind == "saturate":
            want = s.call("cl_fix_saturate", [x, a, r, s.sat(sm)])
        else:
            want = s.call("cl_fix_resize", [x, a, r, s.rnd(rm), s.sat(sm)])
        od = top.at(inst.ports["out_data"], L)
        if not c.lin_eq0(c.lin(I.vlen(od) - s.width(r))):
            raise Finding("out_data: width", kind="data")
        s.same(I.uval(od), I.uval(want), f"out_data is not the value of cl_fix_{kind}")
    return fn


def ob_c17(tier):
    obs = []
    for reg in ("yes_s", "no_s", "auto_s"):
        for nm, Q in with_S(fmt_poly("a", ["rF", "mw"]).add(v("mw")), "a"):
            for m in ROUND:
                obs.append(Ob(f"en_cl_fix_round [{reg},{nm}{m}]", Q, entity("round", reg, rm=m), "en_cl_fix_round"))
        for nm, Q in with_S(fmt_poly("ar", ["mw"]).add(v("mw")), "ar"):
            for m in ROUND if tier == "thorough" else ("Trunc_s", "ConvEven_s"):
                obs.append(Ob(f"en_cl_fix_round without format check [{reg},{nm}{m}]", Q, entity("round", reg, rm=m, chk=False), "en_cl_fix_round"))
            for m in ROUND:
                for sm in SAT:
                    obs.append(Ob(f"en_cl_fix_resize [{reg},{nm}{m},{sm}]", Q, entity("resize", reg, rm=m, sm=sm), "en_cl_fix_resize"))
        Ps = fmt_poly("a", ["rS", "rI", "mw"]).add(v("mw"))
        Ps = Ps.add(v("rS")).add(1 - v("rS")).add(v("rI") + v("aF")).add(v("rS") + v("rI") + v("aF") - 1)
        for nm, Q in with_S(Ps, "ar"):
            for sm in SAT:
                obs.append(Ob(f"en_cl_fix_saturate [{reg},{nm}{sm}]", Q, entity("saturate", reg, sm=sm), "en_cl_fix_saturate"))
    return obs


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    from ob import run_all
    sel = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    obs = [o for o in globals()["ob_" + sel]("quick") if pat in o.name]
    import time
    t = time.time()
    rs = run_all(obs, "quick", jobs=int(os.environ.get("J", "4")), verbose=True)
    import collections
    print(collections.Counter(r["verdict"] for r in rs), time.time() - t)
