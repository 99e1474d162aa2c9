"""Parser for the MATLAB subset of bittrue/models/matlab (functions, classdef with static methods, assignments, if/for)."""
import re


class MErr(Exception):
    pass


class T:
    __slots__ = ("k", "v", "sp", "line", "pre")

    def __init__(self, k, v, sp, line, pre):
        self.k, self.v, self.sp, self.line, self.pre = k, v, sp, line, pre

    def __repr__(self):
        return f"{self.k}:{self.v}"


KW = {"function", "end", "if", "elseif", "else", "for", "while", "return", "break", "continue", "classdef", "methods", "properties", "switch", "case",
      "otherwise", "try", "catch"}
OPS = [".*", "./", ".^", ".'", "==", "~=", "<=", ">=", "&&", "||", "+", "-", "*", "/", "^", "'", "(", ")", "[", "]", "{", "}", ",", ";", "=", "<", ">", "&", "|", "~", ":", ".", "@"]


def lex(src):
    out = []
    src = re.sub(r"\.\.\.[^\n]*\n", " ", src)
    depth = []
    for ln, line in enumerate(src.split("\n"), 1):
        i = 0
        if line.strip().startswith("%"):
            continue
        sp = False
        while i < len(line):
            ch = line[i]
            if ch in " \t\r":
                sp = True
                i += 1
                continue
            if ch == "%":
                break
            prev = out[-1] if out else None
            m = re.match(r"[A-Za-z_]\w*", line[i:])
            if m:
                w = m.group(0)
                k = "id"
                if w in KW and not (prev is not None and prev.k == "op" and prev.v == "." and not sp):
                    if not (w == "end" and depth):
                        k = "kw"
                out.append(T(k, w, sp, ln, 0))
                i += len(w)
            elif ch.isdigit():
                m = re.match(r"\d+(\.\d+)?([eE][+-]?\d+)?", line[i:])
                out.append(T("num", m.group(0), sp, ln, 0))
                i += len(m.group(0))
            elif ch == "'" and not (prev is not None and not sp and (prev.k in ("id", "num") or prev.v in (")", "]", "}", "'", ".'"))):
                j = line.index("'", i + 1)
                while line[j:j + 2] == "''":
                    j = line.index("'", j + 2)
                out.append(T("str", line[i + 1:j], sp, ln, 0))
                i = j + 1
            elif ch == '"':
                j = line.index('"', i + 1)
                out.append(T("str", line[i + 1:j], sp, ln, 0))
                i = j + 1
            else:
                for o in OPS:
                    if line.startswith(o, i):
                        break
                else:
                    raise MErr(f"line {ln}: character {ch}")
                if o in "([{":
                    depth.append(o)
                elif o in ")]}" and depth:
                    depth.pop()
                out.append(T("op", o, sp, ln, 0))
                i += len(o)
            sp = False
        if not depth or depth[-1] != "(":
            out.append(T("nl", "\n", False, ln, 0))
    out.append(T("eof", "", False, 0, 0))
    return out


class P:
    def __init__(self, src):
        self.t = lex(src)
        self.i = 0

    @property
    def c(self):
        return self.t[self.i]

    def nx(self):
        self.i += 1
        return self.t[self.i - 1]

    def is_(self, v, k=None):
        return self.c.v == v and (k is None or self.c.k == k) and self.c.k != "str"

    def eat(self, v):
        if not self.is_(v):
            raise MErr(f"line {self.c.line}: expected {v}, found {self.c.v}")
        return self.nx()

    def skip(self):
        while self.c.k == "nl" or self.is_(";") or self.is_(","):
            self.nx()

    def file(self):
        """-> (script statements, {function name: Func}, class name)"""
        funcs, cls, body = {}, None, []
        self.skip()
        while self.c.k != "eof":
            if self.is_("function", "kw"):
                f = self.func()
                funcs.setdefault(f["name"], f)
                funcs.setdefault("__main__", f)
            elif self.is_("classdef", "kw"):
                self.nx()
                cls = self.nx().v
                while self.c.k != "nl":
                    self.nx()
                self.skip()
                while not self.is_("end", "kw"):
                    sec = self.nx()
                    if sec.v not in ("methods",):
                        raise MErr(f"classdef section {sec.v}")
                    attr = ""
                    while self.c.k != "nl":
                        attr += self.nx().v
                    self.skip()
                    while not self.is_("end", "kw"):
                        f = self.func()
                        f["static"] = "static" in attr.lower()
                        funcs[f["name"]] = f
                        self.skip()
                    self.nx()
                    self.skip()
                self.nx()
            else:
                body.append(self.stmt())
            self.skip()
        return body, funcs, cls

    def func(self):
        line = self.eat("function").line
        outs = []
        j = self.i
        # outputs
        if self.is_("["):
            self.nx()
            while not self.is_("]"):
                if self.c.k == "id":
                    outs.append(self.c.v)
                self.nx()
            self.nx()
            self.eat("=")
            name = self.nx().v
        else:
            name = self.nx().v
            if self.is_("="):
                self.nx()
                outs = [name]
                name = self.nx().v
        while self.is_("."):
            self.nx()
            name += "." + self.nx().v
        ins = []
        if self.is_("("):
            self.nx()
            while not self.is_(")"):
                if self.c.k == "id" or self.is_("~"):
                    ins.append(self.c.v)
                self.nx()
            self.nx()
        body = self.block()
        if self.is_("end", "kw"):
            self.nx()
        return {"name": name, "ins": ins, "outs": outs, "body": body, "line": line, "static": True}

    def block(self, stop=("end", "elseif", "else", "case", "otherwise", "catch", "function")):
        out = []
        self.skip()
        while not (self.c.k == "kw" and self.c.v in stop) and self.c.k != "eof":
            out.append(self.stmt())
            self.skip()
        return out

    def stmt(self):
        ln = self.c.line
        if self.c.k == "kw":
            k = self.nx().v
            if k == "if":
                arms = []
                cond = self.expr()
                arms.append((cond, self.block()))
                els = []
                while True:
                    if self.is_("elseif", "kw"):
                        self.nx()
                        cond = self.expr()
                        arms.append((cond, self.block()))
                    elif self.is_("else", "kw"):
                        self.nx()
                        els = self.block()
                    else:
                        break
                self.eat("end")
                return ("if", arms, els, ln)
            if k == "for":
                par = self.is_("(")
                if par:
                    self.nx()
                v = self.nx().v
                self.eat("=")
                e = self.expr()
                if par:
                    self.eat(")")
                b = self.block()
                self.eat("end")
                return ("for", v, e, b, ln)
            if k == "while":
                e = self.expr()
                b = self.block()
                self.eat("end")
                return ("while", e, b, ln)
            if k in ("return", "break", "continue"):
                return (k, ln)
            if k == "switch":
                e = self.expr()
                self.skip()
                arms, els = [], None
                while not self.is_("end", "kw"):
                    if self.is_("case", "kw"):
                        self.nx()
                        ce = self.expr()
                        arms.append((ce, self.block()))
                    elif self.is_("otherwise", "kw"):
                        self.nx()
                        els = self.block()
                    else:
                        raise MErr(f"line {self.c.line}: switch")
                self.nx()
                return ("switch", e, arms, els or [], ln)
            raise MErr(f"line {ln}: statement {k}")
        # [a,b] = ...
        if self.is_("["):
            j, d = self.i, 0
            while self.t[j].k not in ("eof", "nl"):
                if self.t[j].v == "[" and self.t[j].k == "op":
                    d += 1
                if self.t[j].v == "]" and self.t[j].k == "op":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if self.t[j + 1].k == "op" and self.t[j + 1].v == "=":
                self.nx()
                outs = []
                while not self.is_("]"):
                    if self.is_(","):
                        self.nx()
                        continue
                    if self.is_("~"):
                        self.nx()
                        outs.append(None)
                        continue
                    outs.append(self.postfix())
                self.nx()
                self.eat("=")
                return ("massign", outs, self.expr(), ln)
        e = self.expr()
        if self.is_("="):
            self.nx()
            return ("assign", e, self.expr(), ln)
        return ("expr", e, ln)

    # expressions: precedence climbing
    LEV = [["||"], ["&&"], ["|"], ["&"], ["==", "~=", "<", "<=", ">", ">="], [":"], ["+", "-"], ["*", "/", ".*", "./"]]

    def expr(self, lev=0, mat=False):
        if lev == len(self.LEV):
            return self.unary(mat)
        a = self.expr(lev + 1, mat)
        while self.c.k == "op" and self.c.v in self.LEV[lev]:
            if self.c.v == ":" and self.t[self.i + 1].v in (")", "}", ","):
                break
            if mat and self.c.sp and self.c.v in "+-" and not self.t[self.i + 1].sp:
                break
            o = self.nx().v
            b = self.expr(lev + 1, mat)
            if o == ":":
                a = ("range", a[1], a[2], b) if a[0] == "range_" else ("range_", a, b)
            else:
                a = ("bin", o, a, b)
        if a[0] == "range_":
            a = ("range", a[1], None, a[2])
        return a

    def unary(self, mat):
        if self.c.k == "op" and self.c.v in ("-", "+", "~"):
            o = self.nx().v
            return ("un", o, self.unary(mat))
        a = self.postfix(mat)
        if self.c.k == "op" and self.c.v in ("^", ".^"):
            self.nx()
            return ("bin", "^", a, self.unary(mat))
        return a

    def args(self, close, mat=False):
        out = []
        self.skipnl()
        while not self.is_(close):
            if self.is_(":") and self.t[self.i + 1].v in (close, ","):
                self.nx()
                out.append(("colon",))
            else:
                out.append(self.expr(0, mat))
            self.skipnl()
            if self.is_(","):
                self.nx()
                self.skipnl()
            elif mat and self.is_(";"):
                self.nx()
                out.append(("semi",))
            elif not self.is_(close) and not mat:
                raise MErr(f"line {self.c.line}: argument list at {self.c.v}")
        self.eat(close)
        return out

    def skipnl(self):
        while self.c.k == "nl":
            self.nx()

    def postfix(self, mat=False):
        a = self.primary()
        while True:
            if mat and self.c.sp:
                return a
            if self.is_("(") and self.c.k == "op":
                self.nx()
                a = ("paren", a, self.args(")"))
            elif self.is_("{") and self.c.k == "op" and not self.c.sp:
                self.nx()
                a = ("brace", a, self.args("}"))
            elif self.is_(".") and self.c.k == "op":
                self.nx()
                if self.is_("("):
                    self.nx()
                    e = self.expr()
                    self.eat(")")
                    a = ("dfield", a, e)
                else:
                    a = ("field", a, self.nx().v)
            elif self.c.k == "op" and self.c.v in ("'", ".'"):
                self.nx()
                a = ("transpose", a)
            else:
                return a

    def primary(self):
        t = self.nx()
        if t.k == "num":
            return ("num", int(t.v) if t.v.isdigit() else float(t.v))
        if t.k == "str":
            return ("str", t.v)
        if t.k == "id":
            return ("id", t.v, t.line)
        if t.k == "op":
            if t.v == "(":
                e = self.expr()
                self.eat(")")
                return e
            if t.v == "[":
                return ("matrix", self.args("]", True))
            if t.v == "{":
                return ("cell", self.args("}", True))
            if t.v == "@":
                if self.is_("("):
                    ps = []
                    self.nx()
                    while not self.is_(")"):
                        if self.c.k == "id":
                            ps.append(self.c.v)
                        self.nx()
                    self.nx()
                    return ("lambda", ps, self.expr())
                n = self.nx().v
                while self.is_("."):
                    self.nx()
                    n += "." + self.nx().v
                return ("handle", n)
            if t.v == ":":
                return ("colon",)
        raise MErr(f"line {t.line}: unexpected {t.v}")


def parse(path):
    return P(open(path, encoding="utf-8-sig", errors="replace").read()).file()


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        try:
            b, fs, c = parse(f)
            print(f.split("/")[-1], c, list(fs), len(b))
        except Exception as e:
            print(f, "ERR", repr(e))
