"""VHDL front end: lexer and recursive-descent parser for the subset of VHDL-93/2008 used in this repository.

Nodes are N(kind, line, **fields).  Names are lower-cased; character and string literals keep their case."""
import re


class VErr(Exception):
    pass


class N:
    def __init__(self, kind, line, **kw):
        self.kind, self.line = kind, line
        self.__dict__.update(kw)

    def __repr__(self):
        return "N(" + self.kind + "," + ",".join(f"{k}={v!r}" for k, v in self.__dict__.items() if k not in ("kind", "line")) + ")"


TOK = re.compile(r"""
 (?P<ws>\s+)|(?P<com>--[^\n]*)|(?P<bcom>/\*.*?\*/)
|(?P<bits>[0-9]*[usUS]?[xXbBoOdD]"[^"\n]*")
|(?P<ext>\\(?:[^\\\n]|\\\\)*\\)
|(?P<id>[A-Za-z][A-Za-z0-9_]*)
|(?P<based>[0-9][0-9_]*\#[0-9A-Fa-f_.]+\#(?:[eE][+-]?[0-9]+)?)
|(?P<real>[0-9][0-9_]*\.[0-9][0-9_]*(?:[eE][+-]?[0-9]+)?)
|(?P<int>[0-9][0-9_]*(?:[eE]\+?[0-9]+)?)
|(?P<str>"(?:[^"\n]|"")*")
|(?P<op><<|>>|\?/=|\?<=|\?>=|\?=|\?<|\?>|\?\?|=>|\*\*|:=|/=|>=|<=|<>|[-+*/&|=<>()\[\];:,.'^@?])
""", re.X | re.S)
CH = re.compile(r"'(.)'", re.S)

KW = set("""abs access after alias all and architecture array assert attribute begin block body buffer bus case component configuration
constant disconnect downto else elsif end entity exit file for function generate generic group guarded if impure in inertial inout is
label library linkage literal loop map mod nand new next nor not null of on open or others out package port postponed procedure process
protected pure range record register reject rem report return rol ror select severity shared signal sla sll sra srl subtype then to transport type
unaffected units until use variable wait when while with xnor xor context default parameter""".split())


def lex(src, fn=""):
    out, i, line, prev = [], 0, 1, None
    n = len(src)
    while i < n:
        if src[i] == "'":
            m = CH.match(src, i)
            # a tick after an identifier or ')' is an attribute tick, unless it cannot be one
            tick = prev is not None and (prev[0] == "id" or prev[1] in (")", "]") or prev[0] == "str" or prev[0] == "chr") and prev[1] not in KW - {"all", "range"}
            if m and not tick:
                prev = ("chr", m.group(1), line)
                out.append(prev)
                i = m.end()
                continue
        m = TOK.match(src, i)
        if not m:
            raise VErr(f"{fn}:{line}: cannot tokenise {src[i:i+20]!r}")
        k, t = m.lastgroup, m.group()
        if k not in ("ws", "com", "bcom"):
            if k == "id":
                t = t.lower()
                if t in KW:
                    k = "kw"
            elif k == "str":
                t = t[1:-1].replace('""', '"')
            prev = (k, t, line)
            out.append(prev)
        line += t.count("\n") if k in ("ws", "bcom") else 0
        i = m.end()
    out.append(("eof", "", line))
    return out


REL = ("=", "/=", "<", "<=", ">", ">=", "?=", "?/=")
LOG = ("and", "or", "xor", "nand", "nor", "xnor")
SHF = ("sll", "srl", "sla", "sra", "rol", "ror")


class Parser:
    def __init__(self, src, fn=""):
        self.t = lex(src, fn)
        self.p = 0
        self.fn = fn

    # ---------------------------------------------------------------- helpers
    @property
    def line(self):
        return self.t[self.p][2]

    def fail(self, what):
        k, t, l = self.t[self.p]
        raise VErr(f"{self.fn}:{l}: expected {what}, found {t!r}")

    def at(self, *xs):
        k, t, _ = self.t[self.p]
        return k in ("kw", "op") and t in xs

    def at2(self, *xs):
        k, t, _ = self.t[min(self.p + 1, len(self.t) - 1)]
        return k in ("kw", "op") and t in xs

    def acc(self, *xs):
        if self.at(*xs):
            self.p += 1
            return self.t[self.p - 1][1]
        return None

    def exp(self, *xs):
        r = self.acc(*xs)
        if r is None:
            self.fail(" or ".join(xs))
        return r

    def ident(self):
        k, t, _ = self.t[self.p]
        if k in ("id", "ext"):
            self.p += 1
            return t
        if k == "kw" and t in ("context", "default", "parameter", "protected", "file"):
            self.p += 1
            return t
        self.fail("identifier")

    def isid(self, d=0):
        return self.t[min(self.p + d, len(self.t) - 1)][0] in ("id", "ext")

    # ---------------------------------------------------------------- design units
    def file(self):
        units, ctx = [], []
        while self.t[self.p][0] != "eof":
            l = self.line
            if self.at("library"):
                self.p += 1
                ns = [self.ident()]
                while self.acc(","):
                    ns.append(self.ident())
                self.exp(";")
                ctx.append(N("library", l, names=ns))
            elif self.at("use"):
                ctx.append(self.use())
            elif self.at("context"):
                self.p += 1
                nm = self.selname()
                if self.acc("is"):
                    items = []
                    while not self.at("end"):
                        l2 = self.line
                        if self.acc("library"):
                            ns = [self.ident()]
                            while self.acc(","):
                                ns.append(self.ident())
                            self.exp(";")
                            items.append(N("library", l2, names=ns))
                        elif self.at("use"):
                            items.append(self.use())
                        else:
                            self.fail("context item")
                    self.skip_to_semi()
                    units.append(N("contextdecl", l, name=nm, items=items))
                else:
                    self.exp(";")
                    ctx.append(N("contextref", l, name=nm))
            elif self.at("package"):
                u = self.package()
                u.ctx, ctx = ctx, []
                units.append(u)
            elif self.at("entity"):
                u = self.entity()
                u.ctx, ctx = ctx, []
                units.append(u)
            elif self.at("architecture"):
                u = self.architecture()
                u.ctx, ctx = ctx, []
                units.append(u)
            else:
                self.fail("design unit")
        return units

    def use(self):
        l = self.line
        self.exp("use")
        ns = [self.selname()]
        while self.acc(","):
            ns.append(self.selname())
        self.exp(";")
        return N("use", l, names=ns)

    def selname(self):
        s = self.ident()
        while self.acc("."):
            if self.acc("all"):
                s += ".all"
            elif self.t[self.p][0] == "str":
                s += '."' + self.t[self.p][1].lower() + '"'
                self.p += 1
            else:
                s += "." + self.ident()
        return s

    def skip_to_semi(self):
        while not self.at(";"):
            self.p += 1
        self.p += 1

    def package(self):
        l = self.line
        self.exp("package")
        body = bool(self.acc("body"))
        nm = self.ident()
        self.exp("is")
        ds = self.decls()
        self.exp("end")
        self.skip_to_semi()
        return N("packagebody" if body else "package", l, name=nm, decls=ds)

    def entity(self):
        l = self.line
        self.exp("entity")
        nm = self.ident()
        self.exp("is")
        gen, ports = [], []
        if self.acc("generic"):
            gen = self.params()
            self.exp(";")
        if self.acc("port"):
            ports = self.params()
            self.exp(";")
        ds = self.decls()
        if self.acc("begin"):
            while not self.at("end"):
                self.p += 1
        self.exp("end")
        self.skip_to_semi()
        return N("entity", l, name=nm, generics=gen, ports=ports, decls=ds)

    def architecture(self):
        l = self.line
        self.exp("architecture")
        nm = self.ident()
        self.exp("of")
        en = self.ident()
        self.exp("is")
        ds = self.decls()
        self.exp("begin")
        st = self.concs()
        self.exp("end")
        self.skip_to_semi()
        return N("architecture", l, name=nm, entity=en, decls=ds, stmts=st)

    def params(self):
        out = []
        self.exp("(")
        while not self.at(")"):
            out += self.param()
            if not self.acc(";"):
                break
        self.exp(")")
        return out

    def param(self):
        l = self.line
        cls = self.acc("constant", "variable", "signal", "file")
        ns = [self.ident()]
        while self.acc(","):
            ns.append(self.ident())
        self.exp(":")
        mode = self.acc("in", "out", "inout", "buffer")
        ty = self.subtype()
        self.acc("bus")
        d = self.expr() if self.acc(":=") else None
        return [N("param", l, name=n, cls=cls, mode=mode or "in", type=ty, default=d) for n in ns]

    # ---------------------------------------------------------------- declarations
    def decls(self):
        out = []
        while not self.at("begin", "end"):
            d = self.decl()
            if d is not None:
                out += d if isinstance(d, list) else [d]
        return out

    def decl(self):
        l = self.line
        if self.at("use"):
            return self.use()
        if self.at("type"):
            return self.typedecl()
        if self.acc("subtype"):
            nm = self.ident()
            self.exp("is")
            ty = self.subtype()
            self.exp(";")
            return N("subtype", l, name=nm, type=ty)
        if self.at("constant", "variable", "signal", "shared", "file"):
            sh = self.acc("shared")
            cls = self.exp("constant", "variable", "signal", "file")
            ns = [self.ident()]
            while self.acc(","):
                ns.append(self.ident())
            self.exp(":")
            ty = self.subtype()
            init = None
            if self.acc(":="):
                init = self.expr()
            if cls == "file":
                if self.acc("open"):
                    self.expr()
                if self.acc("is"):
                    self.expr()
            self.exp(";")
            return [N("object", l, cls=cls, name=n, type=ty, init=init, shared=bool(sh)) for n in ns]
        if self.at("function", "procedure", "pure", "impure"):
            return self.subprog()
        if self.acc("attribute"):
            nm = self.ident()
            if self.acc(":"):
                ty = self.subtype()
                self.exp(";")
                return N("attrdecl", l, name=nm, type=ty)
            self.exp("of")
            self.skip_to_semi()
            return N("attrspec", l, name=nm)
        if self.acc("alias"):
            if self.t[self.p][0] in ("str", "chr"):
                nm = '"' + self.t[self.p][1].lower() + '"'
                self.p += 1
            else:
                nm = self.ident()
            ty = self.subtype() if self.acc(":") else None
            self.exp("is")
            e = self.name_only()
            if self.acc("["):
                while not self.acc("]"):
                    self.p += 1
            self.exp(";")
            return N("alias", l, name=nm, type=ty, value=e)
        if self.acc("component"):
            nm = self.ident()
            self.acc("is")
            gen, ports = [], []
            if self.acc("generic"):
                gen = self.params()
                self.exp(";")
            if self.acc("port"):
                ports = self.params()
                self.exp(";")
            self.exp("end")
            self.skip_to_semi()
            return N("component", l, name=nm, generics=gen, ports=ports)
        self.fail("declaration")

    def name_only(self):
        return self.primary()

    def typedecl(self):
        l = self.line
        self.exp("type")
        nm = self.ident()
        if self.acc(";"):
            return N("type", l, name=nm, def_=None)
        self.exp("is")
        l2 = self.line
        if self.acc("("):
            lits = []
            while True:
                k, t, _ = self.t[self.p]
                if k == "chr":
                    lits.append("'" + t + "'")
                    self.p += 1
                else:
                    lits.append(self.ident())
                if not self.acc(","):
                    break
            self.exp(")")
            d = N("enum", l2, lits=lits)
        elif self.acc("record"):
            fs = []
            while not self.at("end"):
                ns = [self.ident()]
                while self.acc(","):
                    ns.append(self.ident())
                self.exp(":")
                ty = self.subtype()
                self.exp(";")
                fs += [(n, ty) for n in ns]
            self.exp("end")
            self.exp("record")
            if self.isid():
                self.ident()
            d = N("record", l2, fields=fs)
        elif self.acc("array"):
            self.exp("(")
            ix = []
            unc = False
            while True:
                if self.isid() and self.t[self.p + 1][1] == "range" and self.t[self.p + 2][1] == "<>":
                    ix.append(N("unconstrained", l2, mark=self.ident()))
                    self.p += 2
                    unc = True
                else:
                    ix.append(self.drange())
                if not self.acc(","):
                    break
            self.exp(")")
            self.exp("of")
            el = self.subtype()
            d = N("arraytype", l2, index=ix, elem=el, unconstrained=unc)
        elif self.acc("file"):
            self.exp("of")
            d = N("filetype", l2, elem=self.subtype())
        elif self.acc("access"):
            d = N("access", l2, elem=self.subtype())
        elif self.acc("range"):
            d = N("rangetype", l2, range=self.drange())
        elif self.at("protected"):
            self.p += 1
            body = bool(self.acc("body"))
            ds = self.decls()
            self.exp("end")
            self.exp("protected")
            self.acc("body")
            if self.isid():
                self.ident()
            d = N("protectedbody" if body else "protected", l2, decls=ds)
        else:
            self.fail("type definition")
        self.exp(";")
        return N("type", l, name=nm, def_=d)

    def subprog(self):
        l = self.line
        pure = self.acc("pure", "impure")
        kind = self.exp("function", "procedure")
        if self.t[self.p][0] == "str":
            nm = '"' + self.t[self.p][1].lower() + '"'
            self.p += 1
        else:
            nm = self.ident()
        self.acc("parameter")
        ps = self.params() if self.at("(") else []
        ret = None
        if kind == "function":
            self.exp("return")
            ret = self.subtype()
        if self.acc(";"):
            return N("subprog", l, sk=kind, name=nm, params=ps, ret=ret, pure=pure, body=None, decls=None)
        if self.acc("is"):
            if self.at("new"):
                self.skip_to_semi()
                return None
        start = self.p
        try:
            ds = self.decls()
            self.exp("begin")
            body = self.stmts()
            self.exp("end")
            self.skip_to_semi()
        except VErr as e:               # a construct outside the supported subset: only this body is lost
            self.p = start
            self.skip_body()
            ds, body = [], [N("broken", l, why=str(e))]
        return N("subprog", l, sk=kind, name=nm, params=ps, ret=ret, pure=pure, body=body, decls=ds)

    def skip_body(self):
        """from the start of a declarative part: past the 'end ...;' closing the body"""
        depth = 0
        while True:
            k, t, l = self.t[self.p]
            if k == "eof":
                raise VErr(f"{self.fn}:{l}: unbalanced body")
            if k == "kw":
                if t == "end":
                    self.skip_to_semi()
                    if depth == 0:
                        return
                    depth -= 1
                    continue
                if t in ("if", "case", "loop", "block", "process", "record", "units", "component", "protected", "generate"):
                    depth += 1
                elif t in ("for", "while") or (t == "elsif"):
                    pass
                elif t in ("function", "procedure"):
                    # a nested body has 'is' before the first ';' outside parentheses (not 'is new')
                    q, par = self.p + 1, 0
                    while self.t[q][0] != "eof":
                        tt = self.t[q][1] if self.t[q][0] in ("op", "kw") else ""
                        par += (tt == "(") - (tt == ")")
                        if par == 0 and tt in (";", "is"):
                            break
                        q += 1
                    if self.t[q][1] == "is" and self.t[q + 1][1] != "new":
                        depth += 1
                    self.p = q
            self.p += 1

    def subtype(self):
        l = self.line
        nm = self.selname()
        res = None
        if self.isid():                 # resolution function
            res, nm = nm, self.selname()
        con = None
        while self.acc("'"):
            nm += "'" + (self.acc("range", "subtype") or self.ident())
        if self.acc("range"):
            con = ("range", self.drange())
        elif self.at("("):
            self.p += 1
            items = [self.drange()]
            while self.acc(","):
                items.append(self.drange())
            self.exp(")")
            con = ("index", items)
            if self.at("("):            # constraint of the elements
                q, el, items = self.p, None, []
                try:
                    self.p += 1
                    items = [self.drange()]
                    while self.acc(","):
                        items.append(self.drange())
                    self.exp(")")
                    el = ("index", items)
                except VErr:
                    self.p = q
                    while not self.acc(")"):
                        self.p += 1
                return N("subtype_ind", l, mark=nm, con=con, res=res, elcon=el)
        return N("subtype_ind", l, mark=nm, con=con, res=res)

    def drange(self):
        """discrete range: expr (to|downto) expr | name'range | subtype [range ...] | open"""
        l = self.line
        if self.acc("open"):
            return N("open", l)
        e = self.expr()
        d = self.acc("to", "downto")
        if d:
            return N("range", l, left=e, dir=d, right=self.expr())
        if self.acc("range"):
            r = self.drange()
            r.mark = e
            return r
        return N("rangeof", l, e=e)

    # ---------------------------------------------------------------- expressions
    def expr(self):
        l = self.line
        if self.acc("??"):
            return N("un", l, op="??", e=self.primary())
        e = self.relation()
        while self.at(*LOG):
            op = self.exp(*LOG)
            e = N("bin", l, op=op, l=e, r=self.relation())
        return e

    def relation(self):
        l = self.line
        e = self.shiftexp()
        if self.at(*REL):
            op = self.exp(*REL)
            e = N("bin", l, op=op, l=e, r=self.shiftexp())
        return e

    def shiftexp(self):
        l = self.line
        e = self.simple()
        if self.at(*SHF):
            op = self.exp(*SHF)
            e = N("bin", l, op=op, l=e, r=self.simple())
        return e

    def simple(self):
        l = self.line
        sg = self.acc("+", "-")
        e = self.term()
        if sg:
            e = N("un", l, op=sg, e=e)
        while self.at("+", "-", "&"):
            op = self.exp("+", "-", "&")
            e = N("bin", l, op=op, l=e, r=self.term())
        return e

    def term(self):
        l = self.line
        e = self.factor()
        while self.at("*", "/", "mod", "rem"):
            op = self.exp("*", "/", "mod", "rem")
            e = N("bin", l, op=op, l=e, r=self.factor())
        return e

    def factor(self):
        l = self.line
        if self.acc("abs"):
            return N("un", l, op="abs", e=self.primary())
        if self.acc("not"):
            return N("un", l, op="not", e=self.primary())
        if self.at(*LOG) and not self.at2(";"):
            op = self.exp(*LOG)
            return N("un", l, op="reduce_" + op, e=self.primary())
        e = self.primary()
        if self.acc("**"):
            e = N("bin", l, op="**", l=e, r=self.primary())
        return e

    def unit(self):
        k, t, _ = self.t[self.p]
        if k == "id" and t in ("fs", "ps", "ns", "us", "ms", "sec", "min", "hr"):
            self.p += 1
            return t

    def primary(self):
        k, t, l = self.t[self.p]
        if k == "int":
            self.p += 1
            s = t.replace("_", "").lower()
            if self.unit():
                return N("phys", l)
            return N("int", l, v=int(s) if "e" not in s else int(s.split("e")[0]) * 10 ** int(s.split("e")[1]))
        if k == "real":
            self.p += 1
            if self.unit():
                return N("phys", l)
            return N("real", l, v=t.replace("_", ""))
        if k == "based":
            self.p += 1
            b, d, ex = (t.replace("_", "").split("#") + [""])[:3]
            e = int(ex[1:]) if ex else 0
            if "." in d:
                raise VErr(f"{self.fn}:{l}: based real literal")
            return N("int", l, v=int(d, int(b)) * int(b) ** e)
        if k == "bits":
            self.p += 1
            return N("bits", l, v=t)
        if k == "chr":
            self.p += 1
            return self.suffix(N("chr", l, v=t))
        if k == "str":
            self.p += 1
            if self.at("("):
                return self.suffix(N("name", l, id='"' + t.lower() + '"'))
            return self.suffix(N("str", l, v=t))
        if self.acc("("):
            e = self.aggregate(l)
            return self.suffix(e)
        if self.acc("new"):
            return N("new", l, e=self.primary())
        if self.acc("null"):
            return N("null", l)
        if self.acc("others"):
            return N("others", l)
        if self.acc("open"):
            return N("open", l)
        if self.acc("<<"):
            while not self.acc(">>"):
                self.p += 1
            return N("external", l)
        return self.suffix(N("name", l, id=self.ident()))

    def aggregate(self, l):
        """after '(' : aggregate or parenthesised expression"""
        els = []
        while True:
            l2 = self.line
            ch = [self.choice()]
            while self.acc("|"):
                ch.append(self.choice())
            if self.acc("=>"):
                els.append((ch, self.expr()))
            else:
                if len(ch) > 1:
                    self.fail("=>")
                els.append((None, ch[0]))
            if not self.acc(","):
                break
        self.exp(")")
        if len(els) == 1 and els[0][0] is None:
            return N("paren", l, e=els[0][1])
        return N("agg", l, els=els)

    def choice(self):
        l = self.line
        if self.acc("others"):
            return N("others", l)
        e = self.expr()
        d = self.acc("to", "downto")
        if d:
            return N("range", l, left=e, dir=d, right=self.expr())
        return e

    def suffix(self, e):
        while True:
            l = self.line
            if self.at("("):
                self.p += 1
                args = []
                if not self.at(")"):
                    while True:
                        nm = None
                        a = self.arg()
                        if self.acc("=>"):
                            nm = a
                            a = self.arg()
                        args.append((nm, a))
                        if not self.acc(","):
                            break
                self.exp(")")
                e = N("call", l, f=e, args=args)
            elif self.at("."):
                self.p += 1
                if self.acc("all"):
                    e = N("deref", l, e=e)
                elif self.t[self.p][0] in ("chr", "str"):
                    e = N("sel", l, e=e, f='"' + self.t[self.p][1].lower() + '"')
                    self.p += 1
                else:
                    e = N("sel", l, e=e, f=self.ident())
            elif self.at("'"):
                if self.t[self.p + 1][1] == "(":
                    self.p += 2
                    e = N("qual", l, mark=e, e=self.aggregate(l))
                else:
                    self.p += 1
                    a = self.acc("range") or self.ident()
                    e = N("attr", l, e=e, a=a)
            elif self.at("[") and e.kind in ("name", "sel"):
                while not self.acc("]"):
                    self.p += 1
            else:
                return e

    def arg(self):
        l = self.line
        if self.acc("open"):
            return N("open", l)
        e = self.expr()
        d = self.acc("to", "downto")
        if d:
            return N("range", l, left=e, dir=d, right=self.expr())
        if self.at("range"):
            self.p += 1
            r = self.drange()
            r.mark = e
            return r
        return e

    # ---------------------------------------------------------------- sequential statements
    def stmts(self):
        out = []
        while not self.at("end", "elsif", "else", "when"):
            out.append(self.stmt())
        return out

    def stmt(self):
        l = self.line
        lab = None
        if self.isid() and self.t[self.p + 1][1] == ":" and self.t[self.p + 1][0] == "op":
            lab = self.ident()
            self.p += 1
        if self.acc("if"):
            arms = []
            c = self.expr()
            self.exp("then")
            arms.append((c, self.stmts()))
            els = None
            while True:
                if self.acc("elsif"):
                    c = self.expr()
                    self.exp("then")
                    arms.append((c, self.stmts()))
                elif self.acc("else"):
                    els = self.stmts()
                else:
                    break
            self.exp("end")
            self.exp("if")
            self.skip_to_semi()
            return N("if", l, arms=arms, els=els)
        if self.acc("case"):
            self.acc("?")
            e = self.expr()
            self.exp("is")
            alts = []
            while self.acc("when"):
                ch = [self.choice()]
                while self.acc("|"):
                    ch.append(self.choice())
                self.exp("=>")
                alts.append((ch, self.stmts()))
            self.exp("end")
            self.exp("case")
            self.skip_to_semi()
            return N("case", l, e=e, alts=alts)
        if self.acc("for"):
            v = self.ident()
            self.exp("in")
            r = self.drange()
            self.exp("loop")
            b = self.stmts()
            self.exp("end")
            self.skip_to_semi()
            return N("for", l, var=v, range=r, body=b, label=lab)
        if self.acc("while"):
            c = self.expr()
            self.exp("loop")
            b = self.stmts()
            self.exp("end")
            self.skip_to_semi()
            return N("while", l, cond=c, body=b, label=lab)
        if self.acc("loop"):
            b = self.stmts()
            self.exp("end")
            self.skip_to_semi()
            return N("while", l, cond=None, body=b, label=lab)
        if self.at("exit", "next"):
            k = self.exp("exit", "next")
            lb = self.ident() if self.isid() else None
            c = self.expr() if self.acc("when") else None
            self.exp(";")
            return N(k, l, label=lb, cond=c)
        if self.acc("return"):
            e = None if self.at(";") else self.expr()
            self.exp(";")
            return N("return", l, e=e)
        if self.acc("null"):
            self.exp(";")
            return N("nullstmt", l)
        if self.at("assert", "report"):
            c = self.expr() if self.acc("assert") else None
            msg = self.expr() if self.acc("report") else None
            sev = self.expr() if self.acc("severity") else None
            self.exp(";")
            return N("assert", l, cond=c, msg=msg, sev=sev)
        if self.acc("wait"):
            on, unt, fo = [], None, None
            if self.acc("on"):
                on.append(self.expr())
                while self.acc(","):
                    on.append(self.expr())
            if self.acc("until"):
                unt = self.expr()
            if self.acc("for"):
                fo = self.expr()
            self.exp(";")
            return N("wait", l, on=on, until=unt, for_=fo)
        if self.at("("):
            self.p += 1
            tgt = self.aggregate(l)
        else:
            tgt = self.primary()
        if self.acc(":="):
            e = self.expr()
            if self.acc("when"):
                c = self.expr()
                arms = [(c, [N("assign", l, target=tgt, e=e)])]
                els = None
                while self.acc("else"):
                    e2 = self.expr()
                    if self.acc("when"):
                        arms.append((self.expr(), [N("assign", l, target=tgt, e=e2)]))
                    else:
                        els = [N("assign", l, target=tgt, e=e2)]
                self.exp(";")
                return N("if", l, arms=arms, els=els)
            self.exp(";")
            return N("assign", l, target=tgt, e=e)
        if self.acc("<="):
            n = self.waveform(l, tgt)
            self.exp(";")
            return n
        self.exp(";")
        return N("pcall", l, e=tgt)

    def waveform(self, l, tgt):
        self.acc("transport", "inertial")
        self.acc("guarded")
        e = self.expr()
        dl = None
        if self.acc("after"):
            dl = self.expr_time()
        while self.acc(","):
            self.expr()
            if self.acc("after"):
                self.expr_time()
            dl = dl or True
        conds = []
        cur = e
        while self.acc("when"):
            c = self.expr()
            conds.append((c, cur))
            cur = None
            if self.acc("else"):
                cur = self.expr()
                if self.acc("after"):
                    dl = self.expr_time()
        return N("sigassign", l, target=tgt, e=cur, conds=conds, delay=dl)

    def expr_time(self):
        e = self.expr()
        if self.isid():
            self.ident()
        return e

    # ---------------------------------------------------------------- concurrent statements
    def concs(self):
        out = []
        while not self.at("end", "elsif", "else", "when"):
            out.append(self.conc())
        return out

    def conc(self):
        l = self.line
        lab = None
        if self.isid() and self.t[self.p + 1][1] == ":" and self.t[self.p + 1][0] == "op":
            lab = self.ident()
            self.p += 1
        self.acc("postponed")
        if self.acc("process"):
            sens = []
            if self.acc("("):
                if self.acc("all"):
                    sens.append(N("name", l, id="all"))
                else:
                    sens.append(self.expr())
                    while self.acc(","):
                        sens.append(self.expr())
                self.exp(")")
            self.acc("is")
            start = self.p
            try:
                ds = self.decls()
                self.exp("begin")
                b = self.stmts()
                self.exp("end")
                self.skip_to_semi()
            except VErr as e:
                self.p = start
                self.skip_body()
                ds, b = [], [N("broken", l, why=str(e))]
            return N("process", l, label=lab, sens=sens, decls=ds, body=b)
        if self.acc("block"):
            if self.acc("("):
                self.expr()
                self.exp(")")
            self.acc("is")
            ds = self.decls()
            self.exp("begin")
            st = self.concs()
            self.exp("end")
            self.skip_to_semi()
            return N("block", l, label=lab, decls=ds, stmts=st)
        if self.at("if", "for", "case") and lab is not None:
            if self.acc("if"):
                arms = [(self.gcond(), None)]
                self.exp("generate")
                arms[0] = (arms[0][0], self.genbody())
                els = None
                while True:
                    if self.acc("elsif"):
                        c = self.gcond()
                        self.exp("generate")
                        arms.append((c, self.genbody()))
                    elif self.acc("else"):
                        if self.isid():
                            self.ident()
                            self.exp(":")
                        self.exp("generate")
                        els = self.genbody()
                    else:
                        break
                self.exp("end")
                self.skip_to_semi()
                return N("ifgen", l, label=lab, arms=arms, els=els)
            if self.acc("for"):
                v = self.ident()
                self.exp("in")
                r = self.drange()
                self.exp("generate")
                b = self.genbody()
                self.exp("end")
                self.skip_to_semi()
                return N("forgen", l, label=lab, var=v, range=r, body=b)
            self.fail("generate")
        if self.at("assert"):
            return self.stmt()
        if self.at("entity", "component"):
            k = self.exp("entity", "component")
            nm = self.selname()
            if self.acc("("):
                self.ident()
                self.exp(")")
            return self.inst(l, lab, nm)
        if self.acc("with"):
            s = self.expr()
            self.exp("select")
            tgt = self.primary()
            self.exp("<=")
            alts = []
            while True:
                e = self.expr()
                self.exp("when")
                ch = [self.choice()]
                while self.acc("|"):
                    ch.append(self.choice())
                alts.append((ch, e))
                if not self.acc(","):
                    break
            self.exp(";")
            return N("selassign", l, sel=s, target=tgt, alts=alts)
        if self.isid() and lab is not None and (self.t[self.p + 1][1] in ("generic", "port", ".") or self.t[self.p + 1][1] == ";"):
            nm = self.selname()
            return self.inst(l, lab, nm)
        tgt = self.primary()
        if self.acc("<="):
            n = self.waveform(l, tgt)
            self.exp(";")
            return n
        self.exp(";")
        return N("pcall", l, e=tgt)

    def gcond(self):
        if self.isid() and self.t[self.p + 1][1] == ":":
            self.p += 2
        return self.expr()

    def genbody(self):
        # optional declarations followed by begin
        save = self.p
        ds = []
        if self.at("constant", "signal", "type", "subtype", "function", "procedure", "attribute", "alias", "component", "shared", "begin", "impure", "pure"):
            ds = self.decls()
            self.exp("begin")
        st = self.concs()
        if self.at("end") and not self.at2("generate"):
            # inner 'end [label];'
            if self.t[self.p + 1][1] == ";" or (self.isid(1) and self.t[self.p + 2][1] == ";"):
                self.skip_to_semi()
        return N("genbody", self.t[save][2], decls=ds, stmts=st)

    def inst(self, l, lab, nm):
        gm, pm = [], []
        if self.acc("generic"):
            self.exp("map")
            gm = self.assoc()
        if self.acc("port"):
            self.exp("map")
            pm = self.assoc()
        self.exp(";")
        return N("inst", l, label=lab, unit=nm, generics=gm, ports=pm)

    def assoc(self):
        out = []
        self.exp("(")
        if not self.at(")"):
            while True:
                a = self.arg()
                f = None
                if self.acc("=>"):
                    f, a = a, self.arg()
                out.append((f, a))
                if not self.acc(","):
                    break
        self.exp(")")
        return out


def parse(src, fn=""):
    return Parser(src, fn).file()


def parse_file(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        return parse(f.read(), path)


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        us = parse_file(p)
        print(p, [(u.kind, u.name) for u in us])
