"""C18: names, codes and text forms of modes and formats in Python, VHDL and MATLAB."""
import os
from pylib import *
from ob import Ob, Direct
import pyabs as A
import vabs
from vabs import Rec, En, DI, St, Dg, VFail
from c_vhdl import VSess, PKG
import c_matlab

MODES = {"FixRound": ("fixround_t", "Round", ROUND), "FixSaturate": ("fixsaturate_t", "Sat", SAT)}
CONST = "cl_fix_constants"


def empty():
    return Poly.top([])


def py_members(c, cls):
    p = Sess(c)
    k = p.cls(cls)
    ms = [(n, m) for n, m in k.ns.items() if isinstance(m, A.EnumMem)]
    if not ms:
        raise Missing(f"{cls} has no members")
    out = {}
    for n, m in ms:
        val = m.value
        if isinstance(val, A.Lin):
            val = c.lin(val).c
        if not isinstance(val, int) or isinstance(val, bool):
            raise Undecided(f"value of {cls}.{n}")
        out[n] = val
    return out


def vhdl_lits(s, ty):
    d = s.sc.lookup(ty)
    if not (isinstance(d, tuple) and d[0] == "type" and d[1].def_.kind == "enum"):
        raise Missing(f"enumeration type {ty}")
    return [x.lower() for x in d[1].def_.lits], d[1]


def documented(cls):
    def fn(c):
        got = py_members(c, cls)
        for i, n in enumerate(MODES[cls][2]):
            if got.get(n) != i:
                raise Finding(f"{cls}.{n} has the code {got.get(n)}, documented {i}", kind="code")
    return fn


def py_vhdl(cls):
    ty = MODES[cls][0]

    def fn(c):
        got = py_members(c, cls)
        s = VSess(c)
        lits, d = vhdl_lits(s, ty)
        for n, val in got.items():
            if n.lower() not in lits:
                raise Finding(f"{cls}.{n} does not exist in VHDL", kind="name")
            if lits.index(n.lower()) != val:
                raise Finding(f"{n} has the code {val} in Python and {lits.index(n.lower())} in VHDL", kind="code")
        for n in lits:
            if n not in [x.lower() for x in got]:
                raise Finding(f"VHDL {ty} {n} does not exist in Python", kind="name")
    return fn


class ConstEv(c_matlab.Ev):
    """cl_fix_constants.m: structures of members"""

    def assign(self, t, v, env, line):
        if t[0] == "field" and t[1][0] == "id":
            o = env.setdefault(t[1][1], ("struct", {}))
            if isinstance(o, tuple) and o[0] == "struct":
                o[1][t[2]] = (v, line)
                return
        c_matlab.Ev.assign(self, t, v, env, line)

    def prop(self, o, name):
        if isinstance(o, tuple) and o[0] == "struct":
            if name in o[1]:
                return o[1][name][0]
            raise c_matlab.Bad(f"field {name} is read before it is defined")
        return c_matlab.Ev.prop(self, o, name)

    def call(self, name, a, env, nout=1):
        if name == "struct":
            out = {}
            if len(a) % 2:
                raise Undecided("struct")
            for k, v in zip(a[::2], a[1::2]):
                if not (isinstance(k, tuple) and k[0] == "str"):
                    raise Undecided("struct")
                out[k[1]] = (v, 0)
            return ("struct", out)
        return c_matlab.Ev.call(self, name, a, env, nout)


def matlab_codes(cls):
    sname = MODES[cls][1]

    def fn():
        m = c_matlab.load(CONST)
        if m is None:
            raise Missing(CONST)
        body = m[0]
        if not body and "__main__" in m[1]:
            raise Undecided("constants are defined by a function")
        ev = ConstEv("scalar", [], [])
        env = {"__nargin": 0}
        ev.local = dict(m[1])
        for st in body:
            ev.stmt(st, env)
        got = env.get(sname)
        if not (isinstance(got, tuple) and got[0] == "struct"):
            raise Undecided(f"{sname} is not a structure")
        want = {}

        def run(c):
            want.update(py_members(c, cls))
        for p in explore(lambda pre: Ctx(empty(), pre), run):
            if p.error is not None:
                raise Undecided(str(p.error))
        codes = {v: k for k, v in want.items()}
        finds = []

        def find(what, line=1):
            finds.append({"what": what, "kind": "constant", "at": f"{c_matlab.DIR}/{CONST}.m:{line}", "where_key": what[:50]})
        for n, val in want.items():
            if n not in got[1]:
                find(f"{sname}.{n} is not defined")
        for n, (v, line) in got[1].items():
            v0 = v
            if not (isinstance(v, tuple) and v[0] == "pycall" and v[1].startswith("py.en_cl_fix_pkg.")):
                raise Undecided(f"{sname}.{n} = {v}")
            path = v[1][len("py.en_cl_fix_pkg."):].split(".")
            if path[0] != cls:
                find(f"{sname}.{n} is a member of {path[0]}", line)
                continue
            if len(path) == 2 and len(v) == 2:
                mem = path[1]
            elif len(path) == 1 and len(v) == 3 and isinstance(c_matlab.strip_int(v[2]), int):
                mem = codes.get(c_matlab.strip_int(v[2]))
            else:
                raise Undecided(f"{sname}.{n} = {v0}")
            if n not in want:
                find(f"{sname}.{n} does not exist in Python", line)
            elif mem != n:
                find(f"{sname}.{n} is {cls}.{mem}", line)
        if finds:
            return {"verdict": "violated", "findings": finds}
        return {"verdict": "proved", "paths": len(want), "proved_paths": len(want), "funcs": [f"{c_matlab.DIR}/{CONST}.m"]}
    return fn


def mode_text(cls):
    ty = MODES[cls][0]
    back = {"FixRound": "cl_fix_round_from_string", "FixSaturate": "cl_fix_saturate_from_string"}[cls]

    def fn(c):
        names = py_members(c, cls)
        s = VSess(c)
        lits, _ = vhdl_lits(s, ty)
        for lit in lits:
            m = En(ty, lit)
            t = s.call("to_string", [m])
            if not isinstance(t, St):
                raise Finding(f"to_string({lit}) is no string", kind="type")
            py = [n for n in names if n.lower() == lit]
            if py and t.text() != py[0]:
                raise Finding(f"to_string({lit}) is {t.text()!r}, the name is {py[0]}", kind="text")
            for off in (1, 3, 17):
                n0 = py[0] if py else lit
                for txt in sorted({t.text(), n0, n0.upper(), n0.lower(), n0.swapcase(), n0[:1].lower() + n0[1:-1].upper() + n0[-1:].swapcase()}):
                    r = s.call(back, [St(txt, off)])
                    if r != m:
                        raise Finding(f"{back}({txt!r}) is {r}", kind="text")
    return fn


def mode_reject(cls):
    back = {"FixRound": "cl_fix_round_from_string", "FixSaturate": "cl_fix_saturate_from_string"}[cls]

    def fn(c):
        s = VSess(c)
        for txt in ("", "x", "None", "Trunc", "sat", "Warn_sat", "ConvOdd", "SymInf"):
            try:
                s.call(back, [St(txt)])
            except VFail:
                continue
            raise Finding(f"{back} accepts {txt!r}", kind="accept")
    return fn


def number(c, stem, k, neg):
    """(expression, characters) of a number with k decimal digits, no leading zero"""
    e, ch = Expr(), []
    for i in range(k):
        lo = 1 if i == 0 and (k > 1 or neg) else 0
        d = c.new_input(f"{stem}{i}", E0(lo), E0(9))
        e = c.norm(e * 10 + d)
        ch.append(Dg(d))
    if neg:
        e = c.norm(-e)
        ch = ["-"] + ch
    return e, ch


def py_text(c, route):
    """text of a symbolic format: list of characters and ('num', field)"""
    p = Sess(c)
    f = p.pfmt("a")
    t = p.I.tostr(f, 114 if route == "repr" else -1) if route in ("str", "repr") else p.call(p.api("cl_fix_format_to_string"), [f])
    parts = t.parts if isinstance(t, A.SymStr) else [t]
    out = []
    for x in parts:
        if isinstance(x, str):
            out += list(x)
        elif isinstance(x, tuple) and x[0] == "num":
            L = c.lin(x[1])
            for fld in "SIF":
                if c.lin(L - v("a" + fld)).is_const() and c.lin(L - v("a" + fld)).c == 0:
                    out.append(("num", fld))
                    break
            else:
                if L.is_const():
                    out += list(str(L.c))
                else:
                    raise Finding("the text of a format shows a number that is none of its fields", kind="text")
        else:
            raise Undecided("text of a format")
    return out


def repr_text(c):
    """repr(format): where it is a constructor call, that call yields the same format"""
    t = [x for x in py_text(c, "repr") if x != " "]
    if "(" not in t or t[-1] != ")" or not "".join(x for x in t[:t.index("(")] if isinstance(x, str)).endswith("FixFormat"):
        c.soft = "repr of a format is not a constructor call: not judged"
        return
    args, cur = [], []
    for x in t[t.index("(") + 1:-1] + [","]:
        if x == ",":
            args.append(cur)
            cur = []
        else:
            cur.append(x)
    got = {}
    for k, x in enumerate(args):
        fld = "SIF"[k] if k < 3 else "?"
        if len(x) > 2 and x[1] == "=":
            fld, x = x[0], x[2:]
        if fld not in "SIF" or fld in got or len(x) != 1 or not isinstance(x[0], tuple):
            raise Finding("repr of a format is no valid constructor call", kind="text")
        got[fld] = x[0][1]
    if got != {"S": "S", "I": "I", "F": "F"}:
        raise Finding("repr of a format is the constructor call of another format", kind="text")


def fmt_text(src, S, nI, nF, off, blanks=None):
    def fn(c):
        s = VSess(c)
        I, cI = number(c, "i", *nI)
        F, cF = number(c, "f", *nF)
        s.I.dnums = [(I, cI), (F, cF)]
        if src == "vhdl":
            t = s.call("to_string", [Rec("fixformat_t", {"s": S, "i": DI(I), "f": DI(F)})])
            if not isinstance(t, St):
                raise Finding("to_string(FixFormat_t) is no string", kind="type")
            ch = t.chars
        else:
            ch = []
            for x in py_text(c, src):
                if isinstance(x, tuple):
                    ch += {"S": list(str(S)), "I": cI, "F": cF}[x[1]]
                elif blanks is None or x != " ":
                    ch.append(x)
                if blanks is not None and x == ",":
                    ch += [" "] * blanks
        r = s.call("cl_fix_format_from_string", [St(ch, off)])
        if not isinstance(r, Rec):
            raise Finding("cl_fix_format_from_string does not return a format", kind="type")
        for k, want in (("s", E0(S)), ("i", I), ("f", F)):
            g = c.norm(s.I.E(r.f[k]))
            s.same(g, want, f"the text of a format is read back with another {k.upper()}")
    return fn


def ob_c18(tier):
    obs = []
    for cls in MODES:
        obs.append(Ob(f"{cls}: documented codes in Python", empty(), documented(cls), f"en_cl_fix_types.{cls}"))
        obs.append(Ob(f"{cls}: VHDL literals and positions = Python names and codes", empty(), py_vhdl(cls), f"{PKG}.{MODES[cls][0]}"))
        obs.append(Direct(f"{cls}: MATLAB constants = Python members", matlab_codes(cls), f"{CONST}.m"))
        obs.append(Ob(f"{cls}: VHDL text and back", empty(), mode_text(cls), f"{PKG}.to_string"))
        obs.append(Ob(f"{cls}: other texts are rejected", empty(), mode_reject(cls), f"{PKG}.to_string"))
    obs.append(Ob("repr(FixFormat) is the constructor call of the same format", fmt_poly("a"), repr_text, "en_cl_fix_types.FixFormat.__repr__"))
    top = 4 if tier == "quick" else 9
    nums = [(k, n) for k in range(1, top + 1) for n in (False, True)]
    for src in ("vhdl", "str", "cl_fix_format_to_string"):
        for S in (0, 1):
            for i, a in enumerate(nums):
                for j, b in enumerate(nums):
                    off = 1 if (i + j) % 3 else 6
                    if src == "cl_fix_format_to_string" and (i + j) % 4:
                        continue
                    nm = lambda x: ("-" if x[1] else "") + "9" * x[0]
                    P = fmt_poly("a") if src != "vhdl" else empty()
                    obs.append(Ob(f"format text ({src}) S={S}, I like {nm(a)}, F like {nm(b)}, index from {off}", P, fmt_text(src, S, a, b, off),
                                  f"{PKG}.cl_fix_format_from_string"))
    for k in (0, 1, 2, 3, 7):
        for S in (0, 1):
            for a, b in (((2, False), (3, True)), ((1, True), (1, False)), ((3, False), (2, False))):
                obs.append(Ob(f"format text with {k} blanks S={S}, {a}, {b}", fmt_poly("a"), fmt_text("str", S, a, b, 1, k), f"{PKG}.cl_fix_format_from_string"))
    return obs


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(20000)
    from ob import run_ob, print_res
    for o in ob_c18("quick")[:int(sys.argv[1]) if len(sys.argv) > 1 else None]:
        print_res(run_ob(o, "quick"))
