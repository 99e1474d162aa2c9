"""C21: thread-modular (rely-guarantee) analysis of the co-simulation runners.

The class is analysed for an arbitrary number of threads.  The shared state of one runner is (values of the attributes that
are written outside of the constructor, phase of the script: 'not' run / 'running' / 'done' / 'disabled').  A thread is executed
abstractly over its program paths; at every point it has a set K of possible shared states.  Steps of other threads are the
steps that this analysis itself collects (with the locks that are held), closed until a fixpoint: a step needs its locks, so it
cannot occur while this thread holds one of them.  The constructor is analysed for the discipline of the module search path."""
import ast
import os
from num import Undecided
from pylib import Missing
from ob import Direct

FILES = [("sim/cosim_runner.py", "cosim_runner"), ("lib/en_tb/sim/cosim_runner.py", "CosimRunner")]


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


class Bad(Exception):
    def __init__(self, what, node=None):
        self.what, self.node = what, node


class Dead(Exception):
    """path cannot be taken"""


class PyEx(Exception):
    """exception of the analysed program"""
    def __init__(self, name="Exception"):
        self.name = name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class V:
    """opaque value (term)"""
    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, V) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "V%r" % (self.t,)


SELF, SYSPATH = V("self"), V("sys.path")


class Mach:
    """one path of one thread (decisions are replayed)"""

    def __init__(self, ana, pre, K=None, phase_on=True):
        self.a, self.pre, self.n = ana, pre, 0
        self.K = K
        self.locks = []
        self.inst = {}                 # constructor mode: attributes written so far
        self.ctor = K is None
        self.paths = []                # inserted search path entries (constructor)
        self.depth = 0
        self.ex = None
        self.fresh = 0

    def choose(self, n):
        if self.n < len(self.pre):
            r = self.pre[self.n]
        else:
            r = 0
            self.pre.append(0)
            self.a.width.append(n)
        self.n += 1
        return r

    # ---------------------------------------------------------------- shared state
    def env(self):
        """close K under the steps of the other threads"""
        if self.ctor:
            return
        held = {l for l in self.locks if l[0] != "fresh"}
        K = set(self.K)
        todo = list(K)
        while todo:
            s = todo.pop()
            for p, q, ls in self.a.steps:
                if p == s and q not in K and not (ls & held):
                    K.add(q)
                    todo.append(q)
        self.K = frozenset(K)

    def step(self, f):
        new = set()
        ls = frozenset(l for l in self.locks if l[0] != "fresh")
        for s in self.K:
            q = f(s)
            new.add(q)
            if q != s:
                self.a.new_steps.add((s, q, ls))
        self.K = frozenset(new)
        self.env()

    def read_attr(self, name, node):
        if self.ctor:
            if name in self.inst:
                return self.inst[name]
            if name in self.a.methods:
                return V("method", name)
            if name in self.a.cls_attr:
                return self.a.cls_attr[name]
            raise Undecided(f"attribute {name}")
        if name in self.a.shared:
            i = self.a.shared.index(name)
            vals = sorted({s[0][i] for s in self.K}, key=repr)
            if not vals:
                raise Dead()
            v = vals[self.choose(len(vals))]
            self.K = frozenset(s for s in self.K if s[0][i] == v)
            self.env()
            return v
        if name in self.a.methods:
            return V("method", name)
        if name in self.a.attrs:
            return self.a.attrs[name]
        if name in self.a.cls_attr:
            return self.a.cls_attr[name]
        raise Undecided(f"attribute {name}")

    def write_attr(self, name, v, node):
        if self.ctor:
            self.inst[name] = v
            return
        if name not in self.a.shared:
            raise Undecided(f"attribute {name} is not tracked")
        if isinstance(v, V) and v.t[0] not in ("retval",):
            raise Undecided(f"value of {name}")
        i = self.a.shared.index(name)
        self.step(lambda s: (s[0][:i] + (v,) + s[0][i + 1:], s[1], s[2]))

    def acquire(self, l, node):
        if l[0] != "fresh" and l in self.locks and not self.a.reentrant.get(l):
            raise Bad("a lock that is already held is acquired again (deadlock)", node)
        self.locks.append(l)
        if l[0] != "fresh" and not self.ctor:
            if self.locks.count(l) == 1:
                # wait until no other thread holds it
                self.K = frozenset(s for s in self.K if l not in s[2])
                if not self.K:
                    raise Dead()
                self.step(lambda s: (s[0], s[1], s[2] | {l}))
        self.env()

    def release(self, l, node):
        if l not in self.locks:
            raise Bad("a lock that is not held is released", node)
        if l[0] != "fresh" and not self.ctor and self.locks.count(l) == 1:
            self.step(lambda s: (s[0], s[1], s[2] - {l}))
        self.locks.remove(l)
        self.env()

    # ---------------------------------------------------------------- the script
    def call_run(self, node):
        if self.ctor:
            raise Bad("the constructor executes the co-simulation", node)
        for s in self.K:
            if s[1] == "disabled":
                raise Bad("the co-simulation can be executed although it is disabled", node)
            if s[1] == "done":
                raise Bad("the co-simulation can be executed a second time", node)
            if s[1] == "running":
                raise Bad("the co-simulation can be executed by two threads at the same time", node)
        self.step(lambda s: (s[0], "running", s[2]))
        if any(s[1] != "running" for s in self.K):
            raise Bad("the co-simulation can be executed by two threads at the same time", node)
        if self.choose(2):
            self.step(lambda s: (s[0], "not", s[2]))
            raise PyEx("script")
        self.step(lambda s: (s[0], "done", s[2]))
        return V("retval")

    def load(self, how, node):
        if not self.ctor:
            raise Undecided("script is loaded outside of the constructor")
        if how == "run_module":
            if not any(l[0] == "global" for l in self.locks):
                raise Bad("the script is loaded without holding the global path lock", node)
            if self.inst.get("__param_path") not in [p for p, i in self.paths]:
                raise Bad("the script is loaded while its directory is not on the search path", node)
        if self.choose(2):
            raise PyEx("load")
        return V("dict", "own")

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.env()
        k = type(st).__name__
        if k == "Expr":
            if isinstance(st.value, ast.Constant):
                return
            if isinstance(st.value, ast.Yield) and env.get("__yield") is not None:
                env["__yield"](self.ev(st.value.value, env) if st.value.value is not None else None)
                return
            self.ev(st.value, env)
        elif k in ("Pass", "Import", "ImportFrom", "Global", "Nonlocal"):
            if k in ("Import", "ImportFrom"):
                self.a.imports(st, env)
        elif k == "Assign":
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif k == "AnnAssign":
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif k == "If":
            self.block(st.body if self.truth(self.ev(st.test, env), st) else st.orelse, env)
        elif k == "Return":
            raise Ret(self.ev(st.value, env) if st.value is not None else None)
        elif k == "Raise":
            if st.exc is None and self.ex is not None:
                raise PyEx(self.ex)
            raise PyEx("raised")
        elif k == "Assert":
            if not self.truth(self.ev(st.test, env), st):
                raise PyEx("AssertionError")
        elif k == "With":
            self.with_(st.items, st.body, env)
        elif k == "Try":
            self.try_(st, env)
        elif k == "While" and not st.orelse:
            n = 0
            while self.truth(self.ev(st.test, env), st):
                n += 1
                if n > 3:
                    raise Undecided("loop")
                self.block(st.body, env)
        elif k == "FunctionDef":
            env[st.name] = V("func", st)
        elif k == "Delete":
            for t in st.targets:
                if isinstance(t, ast.Subscript) and self.ev(t.value, env) == SYSPATH:
                    raise Undecided("del sys.path[...]")
                if not isinstance(t, ast.Name):
                    raise Undecided("del")
        else:
            raise Undecided(f"statement {k}")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in self.a.globals_ and t.id in env.get("__globals", ()):
                raise Undecided("global variable")
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if o == SELF:
                self.write_attr(t.attr, v, t)
            elif o == V("class"):
                if v == V("dict", "own"):
                    v = V("dict", "other")
                self.a.cls_attr[t.attr] = v
            elif o == V("mod", "sys") and t.attr == "path":
                self.restore_path(v, t)
            else:
                raise Undecided("attribute assignment")
        elif isinstance(t, ast.Subscript) and self.ev(t.value, env) == SYSPATH and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
            self.restore_path(v, t)
        else:
            raise Undecided("assignment target")

    def mut_path(self, node):
        if not any(l[0] == "global" for l in self.locks):
            raise Bad("the module search path is changed without holding the global path lock", node)

    def restore_path(self, v, node):
        self.mut_path(node)
        if isinstance(v, V) and v.t[0] == "pathcopy":
            self.paths = list(v.t[1])
        else:
            raise Undecided("new search path")

    def with_(self, items, body, env):
        if not items:
            return self.block(body, env)
        it, rest = items[0], items[1:]
        v = self.ev(it.context_expr, env)
        if isinstance(v, V) and v.t[0] == "lock":
            l = v.t[1]
            self.acquire(l, it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, True, env)
            try:
                self.with_(rest, body, env)
            finally:
                if l in self.locks:
                    self.release(l, it.context_expr)
            return
        if isinstance(v, V) and v.t[0] == "ctxcall":
            f, args, selfv = v.t[1], v.t[2], v.t[3]
            done = []

            def body_(val):
                done.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, env)
                self.with_(rest, body, env)
            e = self.bind(f, list(args), {}, selfv)
            e["__yield"] = body_
            self.block(f.body, e)
            if not done:
                raise Undecided("context manager")
            return
        raise Undecided("with")

    def try_(self, st, env):
        def inner():
            try:
                self.block(st.body, env)
            except PyEx as e:
                for h in st.handlers:
                    if self.catches(h, e):
                        if h.name:
                            env[h.name] = V("exc")
                        old, self.ex = self.ex, e.name
                        try:
                            self.block(h.body, env)
                        finally:
                            self.ex = old
                        return
                raise
            self.block(st.orelse, env)
        try:
            inner()
        except (PyEx, Ret):
            self.block(st.finalbody, env)
            raise
        self.block(st.finalbody, env)

    def catches(self, h, e):
        if h.type is None:
            return True
        names = [n.id for n in ([h.type] if isinstance(h.type, ast.Name) else getattr(h.type, "elts", [])) if isinstance(n, ast.Name)]
        if "BaseException" in names or "Exception" in names:
            return True
        if e.name in names:
            return True
        if e.name in ("script", "load"):
            return bool(self.choose(2))     # any exception
        return False

    # ---------------------------------------------------------------- expressions
    def truth(self, v, node):
        if isinstance(v, V):
            if v.t[0] in ("lock", "dict", "method", "func", "self", "runfn"):
                return True
            return bool(self.choose(2))
        return bool(v)

    def ev(self, e, env):
        k = type(e).__name__
        if k == "Constant":
            return e.value
        if k == "Name":
            if e.id in env:
                return env[e.id]
            if e.id in self.a.globals_:
                return self.a.globals_[e.id]
            if e.id == self.a.cls.name:
                return V("class")
            return V("name", e.id)
        if k == "Attribute":
            o = self.ev(e.value, env)
            if o == SELF:
                if e.attr == "__class__":
                    return V("class")
                return self.read_attr(e.attr, e)
            if o == V("class"):
                if e.attr in self.a.cls_attr:
                    return self.a.cls_attr[e.attr]
                if e.attr in self.a.methods:
                    return V("cmethod", e.attr)
                raise Undecided("class attribute")
            if o == V("mod", "sys") and e.attr == "path":
                return SYSPATH
            if isinstance(o, V) and o.t[0] == "mod":
                return V("name", o.t[1] + "." + e.attr)
            return V("attr", o, e.attr)
        if k == "UnaryOp" and isinstance(e.op, ast.Not):
            return not self.truth(self.ev(e.operand, env), e)
        if k == "BoolOp":
            isand = isinstance(e.op, ast.And)
            for x in e.values[:-1]:
                v = self.ev(x, env)
                if self.truth(v, e) != isand:
                    return v if not isinstance(v, V) else (not isand)
            return self.ev(e.values[-1], env)
        if k == "IfExp":
            return self.ev(e.body if self.truth(self.ev(e.test, env), e) else e.orelse, env)
        if k == "Compare" and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            op = e.ops[0]
            if not isinstance(a, V) and not isinstance(b, V):
                if isinstance(op, (ast.Is, ast.Eq)):
                    return a == b and type(a) is type(b)
                if isinstance(op, (ast.IsNot, ast.NotEq)):
                    return not (a == b and type(a) is type(b))
            if isinstance(op, (ast.Is, ast.IsNot)) and None in (a, b) and not (isinstance(a, V) and a.t[0] in ("retval", "opaque", "attr", "name")):
                return (a is b) == isinstance(op, ast.Is)
            return V("opaque", ast.dump(e))
        if k == "NamedExpr":
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if k == "Subscript":
            o = self.ev(e.value, env)
            if o == SYSPATH and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
                return V("pathcopy", tuple(self.paths))
            i = self.ev(e.slice, env) if not isinstance(e.slice, ast.Slice) else None
            if isinstance(o, V) and o.t[0] == "dict" and i == "run":
                return V("runfn", o.t[1])
            return V("item", o, i)
        if k == "JoinedStr":
            return V("opaque", tuple(self.ev(x.value, env) for x in e.values if isinstance(x, ast.FormattedValue)))
        if k == "BinOp":
            return V("opaque", self.ev(e.left, env), self.ev(e.right, env))
        if k in ("Tuple", "List"):
            return V("opaque", tuple(self.ev(x, env) for x in e.elts))
        if k == "Starred":
            return self.ev(e.value, env)
        if k == "Lambda":
            return V("lambda", e, tuple(sorted(env)))
        if k == "Call":
            return self.call(e, env)
        if k == "Dict":
            return V("opaque", "dict")
        raise Undecided(f"expression {k}")

    def bind(self, f, args, kw, selfv):
        ps = [p.arg for p in f.args.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list)
        vals = ([selfv] if selfv is not None and not static else []) + args
        if len(vals) > len(ps) or f.args.vararg or f.args.kwarg:
            raise Undecided("call")
        env = dict(zip(ps, vals))
        env.update(kw)
        defs = f.args.defaults
        for p, d in zip(ps[len(ps) - len(defs):], defs):
            if p not in env:
                env[p] = self.ev(d, {})
        return env

    def invoke(self, f, args, kw, selfv):
        if any("contextmanager" in ast.dump(d) for d in f.decorator_list):
            return V("ctxcall", f, tuple(args), selfv)
        self.depth += 1
        if self.depth > 12:
            raise Undecided("recursion")
        try:
            self.block(f.body, self.bind(f, args, kw, selfv))
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def call(self, e, env):
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, env)
            m = e.func.attr
            if isinstance(o, V):
                if o.t[0] == "lock":
                    if m == "acquire":
                        a = [self.ev(x, env) for x in e.args] + [self.ev(x.value, env) for x in e.keywords]
                        if a and a[0] is not True:
                            if self.choose(2):
                                return False
                        self.acquire(o.t[1], e)
                        return True
                    if m in ("__enter__",):
                        self.acquire(o.t[1], e)
                        return True
                    if m in ("release", "__exit__"):
                        self.release(o.t[1], e)
                        return None
                    if m == "locked":
                        return V("opaque", "locked")
                if o == SYSPATH:
                    a = [self.ev(x, env) for x in e.args]
                    if m == "insert":
                        self.mut_path(e)
                        self.paths.insert(0, (a[1], a[0]))
                        if a[0] not in (0, 1):
                            raise Bad(f"the script's directory is inserted at position {a[0]} of the search path: a module of the same name elsewhere is found first", e)
                        return None
                    if m == "append":
                        self.mut_path(e)
                        raise Bad("the script's directory is appended to the search path: a module of the same name elsewhere is found first", e)
                    if m == "remove":
                        self.mut_path(e)
                        for i, (p, _) in enumerate(self.paths):
                            if p == a[0]:
                                del self.paths[i]
                                return None
                        raise Bad("a search path entry that was not inserted is removed", e)
                    if m == "pop":
                        self.mut_path(e)
                        if self.paths and a and a[0] == self.paths[0][1]:
                            # position of the newest insertion; the script itself may have inserted entries before it
                            raise Undecided("sys.path.pop")
                        raise Undecided("sys.path.pop")
                    if m == "copy":
                        return V("pathcopy", tuple(self.paths))
                    raise Undecided(f"sys.path.{m}")
                if o.t[0] == "dict" and m == "get":
                    a = [self.ev(x, env) for x in e.args]
                    if a and a[0] == "run":
                        return V("runfn", o.t[1])
                    return V("opaque", "get")
        f = self.ev(e.func, env)
        args = [self.ev(x, env) for x in e.args]
        kw = {x.arg: self.ev(x.value, env) for x in e.keywords}
        if isinstance(f, V):
            t = f.t
            if t[0] == "runfn":
                if t[1] != "own":
                    raise Bad("the run function of another script can be executed", e)
                return self.call_run(e)
            if t[0] == "method":
                m = self.a.methods[t[1]]
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                    raise Undecided("property")
                return self.invoke(m, args, kw, SELF)
            if t[0] == "func":
                return self.invoke(t[1], args, kw, None)
            if t[0] == "lambda" and not args and not kw:
                return self.ev(t[1].body, env)
            if t[0] == "name":
                return self.builtin(t[1], args, kw, e)
            if t[0] == "attr":
                return V("opaque", t, tuple(args))
        raise Undecided("call of " + ast.unparse(e.func))

    def builtin(self, n, args, kw, e):
        last = n.split(".")[-1]
        if last in ("Lock", "RLock") and not args:
            self.fresh += 1
            l = ("fresh", self.fresh)
            if self.ctor:
                l = ("instance", e.lineno, e.col_offset)
                self.a.reentrant[l] = last == "RLock"
            return V("lock", l)
        if last == "run_module" or last == "run_path":
            if last == "run_path":
                if self.inst.get("__param_path") not in terms(args):
                    raise Undecided("run_path")
            elif not args or args[0] != self.inst.get("__param_name"):
                raise Bad("another module than the requested one is loaded", e)
            return self.load(last, e)
        if last in ("import_module", "__import__"):
            raise Bad(f"{last} caches modules by name: a script of the same name in another directory is picked up", e)
        if last in ("vars", "dict") and args and isinstance(args[0], V) and args[0].t[0] == "dict":
            return args[0]
        if last == "bool" and len(args) == 1:
            return self.truth(args[0], e)
        if last in ("getattr", "setattr", "exec", "eval", "super"):
            raise Undecided(f"call of {n}")
        if last == "list" and len(args) == 1 and args[0] == SYSPATH:
            return V("pathcopy", tuple(self.paths))
        if last == "type" and args == [SELF]:
            return V("class")
        return V("opaque", n, tuple(args))


def terms(x):
    out = []
    for a in x:
        out.append(a)
        if isinstance(a, V):
            out += terms(a.t)
        elif isinstance(a, (tuple, list)):
            out += terms(a)
    return out


class Analysis:
    def __init__(self, path, cname):
        self.path = path
        full = os.path.join(repo(), path)
        if not os.path.exists(full):
            raise Missing(f"file {path}")
        self.tree = ast.parse(open(full).read())
        self.width = []
        self.globals_, self.cls_attr, self.reentrant = {}, {}, {}
        self.cls = None
        for st in self.tree.body:
            self.top(st)
        for st in self.tree.body:
            if isinstance(st, ast.ClassDef) and st.name == cname:
                self.cls = st
        if self.cls is None:
            raise Missing(f"class {cname} in {path}")
        self.methods = {f.name: f for f in self.cls.body if isinstance(f, ast.FunctionDef)}
        for n in ("__init__", "run"):
            if n not in self.methods:
                raise Missing(f"method {n} of {cname}")
        for st in self.cls.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                v = st.value
                if self.is_lock(v):
                    l = ("class", st.targets[0].id)
                    self.reentrant[l] = self.is_lock(v) == "RLock"
                    self.cls_attr[st.targets[0].id] = V("lock", ("global",) + l)
                elif isinstance(v, ast.Constant):
                    self.cls_attr[st.targets[0].id] = v.value
        self.steps = set()
        self.new_steps = set()
        self.paths = 0

    def is_lock(self, v):
        if isinstance(v, ast.Call) and not v.args:
            n = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
            if n in ("Lock", "RLock"):
                return n
        return None

    def imports(self, st, env):
        if isinstance(st, ast.Import):
            for a in st.names:
                env[a.asname or a.name.split(".")[0]] = V("mod", a.name if a.asname else a.name.split(".")[0])
        else:
            for a in st.names:
                env[a.asname or a.name] = V("name", (st.module or "") + "." + a.name)
                if st.module == "sys" and a.name == "path":
                    env[a.asname or a.name] = SYSPATH

    def top(self, st):
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            self.imports(st, self.globals_)
        elif isinstance(st, ast.FunctionDef):
            self.globals_[st.name] = V("func", st)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            n = st.targets[0].id
            if self.is_lock(st.value):
                l = ("global", n)
                self.reentrant[l] = self.is_lock(st.value) == "RLock"
                self.globals_[n] = V("lock", l)
            elif isinstance(st.value, ast.Constant):
                self.globals_[n] = st.value.value
            else:
                self.globals_[n] = V("opaque", n)

    def explore(self, mk, body):
        """all paths; body(machine) -> outcome"""
        pre = []
        out = []
        while True:
            self.width = self.width[:len(pre)]
            m = mk(pre)
            self.paths += 1
            if self.paths > 20000:
                raise Undecided("too many paths")
            try:
                out.append((m, body(m)))
            except Dead:
                pass
            # next
            w = self.width
            while pre and pre[-1] + 1 >= w[len(pre) - 1]:
                pre.pop()
            if not pre:
                return out
            pre[-1] += 1
            del w[len(pre):]

    def ctor(self):
        """constructor: search path discipline; returns initial states"""
        init = self.methods["__init__"]
        ps = [p.arg for p in init.args.args]
        if len(ps) < 4:
            raise Missing("parameters of the constructor: (disable, cosim_path, module_name)")
        res = []
        for disable in (False, True):
            def body(m):
                env = {ps[0]: SELF, ps[1]: disable, ps[2]: V("param", "path"), ps[3]: V("param", "name")}
                for p in ps[4:]:
                    env[p] = V("param", p)
                m.inst["__param_path"] = V("param", "path")
                m.inst["__param_name"] = V("param", "name")
                try:
                    m.block(init.body, env)
                    r = "ok"
                except Ret:
                    r = "ok"
                except PyEx as e:
                    r = "ex"
                if m.locks:
                    raise Bad("the constructor returns with a lock held", init)
                if m.paths:
                    raise Bad("the constructor leaves its directory on the module search path" + (" when loading fails" if r == "ex" else ""), init)
                if r == "ok" and not any(v == V("dict", "own") for v in m.inst.values()):
                    if any(v == V("dict", "other") for v in self.cls_attr.values()):
                        raise Bad("the loaded script is kept in a class attribute: another runner picks it up", init)
                    raise Undecided("where the constructor keeps the script")
                if r == "ex" and "load" not in str(r) and False:
                    pass
                return r
            outs = self.explore(lambda pre: Mach(self, pre), body)
            oks = [m for m, r in outs if r == "ok"]
            if not oks:
                raise Bad("the constructor always raises", init)
            for m in oks:
                res.append((disable, m.inst))
        return res

    def run(self):
        inits = self.ctor()
        run = self.methods["run"]
        # attributes written outside of the constructor (transitively through helper methods)
        helper_ctor = set()
        todo = ["__init__"]
        while todo:
            f = self.methods[todo.pop()]
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in self.methods and n.attr not in helper_ctor:
                    helper_ctor.add(n.attr)
                    todo.append(n.attr)
        sh = set()
        for nm, f in self.methods.items():
            if nm == "__init__":
                continue
            if nm in helper_ctor and nm.startswith("_") and not self.reach("run", nm):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    sh.add(n.attr)
        self.shared = sorted(sh)
        keys = {k for d, i in inits for k in i if not k.startswith("__param")}
        self.attrs = {}
        for k in keys:
            vs = {i.get(k) for d, i in inits}
            if k not in sh:
                if len(vs) == 1:
                    self.attrs[k] = vs.pop()
                else:
                    self.shared.append(k)      # depends on 'disable' but is never written: constant of the state
        S0 = set()
        for d, i in inits:
            val = tuple(i.get(k, self.cls_attr.get(k)) for k in self.shared)
            if any(isinstance(x, V) and x.t[0] in ("opaque", "param") for x in val):
                raise Undecided("initial value of " + ", ".join(self.shared))
            S0.add((val, "disabled" if d else "not", frozenset()))
        locks = [v for v in self.attrs.values() if isinstance(v, V) and v.t[0] == "lock"]
        self.info = {"shared": self.shared, "states": 0}
        while True:
            self.new_steps = set()

            def body(m):
                m.env()
                try:
                    m.block(run.body, {run.args.args[0].arg: SELF})
                    v = None
                except Ret as r:
                    v = r.v
                except PyEx as e:
                    if m.locks:
                        raise Bad("a lock stays held when the script fails", run)
                    if e.name != "script":
                        raise Bad("a request raises an exception that is not the script's own", run)
                    return "ex"
                if m.locks:
                    raise Bad("a request returns with a lock held", run)
                if v is not True and not (isinstance(v, V) or (v and v is not None)):
                    raise Bad(f"a request returns {v!r}, which reports failure", run)
                m.env()
                for s in m.K:
                    if s[1] in ("not", "running"):
                        raise Bad("a request can return before the script has run" if s[1] == "not" else
                                  "a request can return while the script is still running in another thread", run)
                return "ok"
            # a single runner is either enabled or disabled: analyse the two separately
            outs = []
            for s0 in sorted(S0, key=repr):
                outs += self.explore(lambda pre: Mach(self, pre, frozenset([s0])), body)
            self.phases = {s[1] for p, q, l in self.new_steps | self.steps for s in (p, q)}
            if self.new_steps <= self.steps:
                break
            self.steps |= self.new_steps
        if ("not", "running") not in {(p[1], q[1]) for p, q, l in self.steps}:
            raise Bad("an enabled request never executes the script", run)
        return self

    def reach(self, a, b):
        seen, todo = set(), [a]
        while todo:
            f = todo.pop()
            if f == b:
                return True
            if f in seen or f not in self.methods:
                continue
            seen.add(f)
            for n in ast.walk(self.methods[f]):
                if isinstance(n, ast.Attribute):
                    todo.append(n.attr)
        return False


def analyse(path, cname, part):
    def fn():
        a = Analysis(path, cname)
        try:
            a.ctor() if part == "ctor" else a.run()
        except Bad as b:
            ln = getattr(b.node, "lineno", 0)
            return {"verdict": "violated", "findings": [{"what": b.what, "kind": "discipline", "at": f"{path}:{ln}", "where_key": b.what[:40]}], "funcs": [f"{path}:{cname}"]}
        n = len(a.steps)
        return {"verdict": "proved", "paths": a.paths, "proved_paths": a.paths, "funcs": [f"{path}:{cname}.{m}" for m in a.methods],
                "reasons": {}, "steps": n}
    return fn


def ob_c21(tier):
    obs = []
    for p, c in FILES:
        obs.append(Direct(f"{p}: search path discipline of the constructor", analyse(p, c, "ctor"), c + ".__init__"))
        obs.append(Direct(f"{p}: at most one run, return after completion", analyse(p, c, "run"), c + ".run"))
    return obs


if __name__ == "__main__":
    from ob import run_ob, print_res
    for o in ob_c21("quick"):
        print_res(run_ob(o, "quick"))
