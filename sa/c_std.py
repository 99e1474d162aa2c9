"""C20: VHDL-93 conformance of the RTL sources.  The deciding step is the analysis (parse and semantic check) of every RTL
file by GHDL's VHDL-93 front end in dependency order in a scratch library; nothing is elaborated or simulated."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from num import Undecided
from pylib import Missing
from ob import Direct

STD_OK = {"ieee": {"std_logic_1164", "numeric_std", "numeric_bit", "math_real", "math_complex"}, "std": {"standard", "textio"}}


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def strip(t):
    """remove comments, string and character literals"""
    out = []
    for line in t.splitlines():
        line = re.sub(r'"(?:[^"\n]|"")*"', '""', line)
        line = re.sub(r"'([^'\n])'", "' '", line) if "--" not in line.split("'")[0] else line
        out.append(line.split("--")[0])
    return "\n".join(out)


def rtl():
    fs = sorted(glob.glob(os.path.join(repo(), "hdl", "**", "*.vhd"), recursive=True) + glob.glob(os.path.join(repo(), "hdl", "**", "*.vhdl"), recursive=True))
    if not fs:
        raise Missing("RTL sources hdl/*.vhd")
    return fs


def scan():
    """file -> (units defined, units of library work used)"""
    info = {}
    for f in rtl():
        t = strip(open(f, encoding="latin-1").read()).lower()
        defs = set(re.findall(r"^\s*(?:entity|package|context)\s+(?!body\b)(\w+)\s+is\b", t, re.M))
        bodies = set(re.findall(r"^\s*package\s+body\s+(\w+)\s+is\b", t, re.M)) | set(re.findall(r"^\s*architecture\s+\w+\s+of\s+(\w+)\s+is\b", t, re.M))
        uses = set(re.findall(r"\bwork\s*\.\s*(\w+)", t)) | bodies
        info[f] = (defs, uses - defs)
    return info


def order():
    info = scan()
    where = {d: f for f, (ds, us) in info.items() for d in ds}
    done, out = set(), []

    def visit(f, stack):
        if f in done:
            return
        if f in stack:
            return
        for u in sorted(info[f][1]):
            g = where.get(u)
            if g and g != f:
                visit(g, stack | {f})
        done.add(f)
        out.append(f)
    for f in sorted(info):
        visit(f, frozenset())
    return out


def ghdl93():
    g = shutil.which("ghdl")
    if g is None:
        raise Undecided("ghdl is not installed")
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        fs = order()
        finds = []
        for f in fs:
            p = subprocess.run([g, "-a", "--std=93", "--workdir=" + d, "--work=lib", f], capture_output=True, text=True, cwd=d, timeout=300)
            if p.returncode != 0:
                lines = [l for l in p.stderr.splitlines() if ":" in l and "warning:" not in l and "note:" not in l]
                if not any(re.search(r":\d+:\d+:", l) for l in lines):
                    raise Undecided("ghdl: " + p.stderr[:200])
                for l in lines[:4]:
                    m = re.search(r"([^/\s]+):(\d+):(\d+):\s*(.*)", l)
                    if m:
                        finds.append({"what": "not VHDL-93: " + m.group(4), "kind": "vhdl93", "at": f"{os.path.relpath(f, repo())}:{m.group(2)}:{m.group(3)}",
                                      "where_key": m.group(4)[:60]})
                break
        if finds:
            return {"verdict": "violated", "findings": finds, "paths": len(fs)}
        return {"verdict": "proved", "paths": len(fs), "proved_paths": len(fs), "funcs": [os.path.relpath(f, repo()) for f in fs]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def libs():
    """only IEEE / STD standard packages and units of the own library"""
    finds = []
    info = scan()
    own = {d for f, (ds, us) in info.items() for d in ds}
    n = 0
    for f in sorted(info):
        t = strip(open(f, encoding="latin-1").read())
        for i, line in enumerate(t.splitlines(), 1):
            for m in re.finditer(r"\blibrary\s+([\w\s,]+);", line, re.I):
                for lib in re.split(r"\s*,\s*", m.group(1).strip()):
                    n += 1
                    if lib.lower() not in ("ieee", "std", "work"):
                        finds.append((f, i, f"library {lib} is not a standard library"))
            for m in re.finditer(r"\b(ieee|std|work)\s*\.\s*(\w+)", line, re.I):
                n += 1
                lib, p = m.group(1).lower(), m.group(2).lower()
                if lib == "work":
                    if p not in own:
                        finds.append((f, i, f"work.{p} is not a design unit of hdl/"))
                elif p not in STD_OK[lib]:
                    finds.append((f, i, f"{lib}.{p} is not a standard VHDL-93 package"))
    if finds:
        return {"verdict": "violated", "findings": [{"what": w, "kind": "library", "at": f"{os.path.relpath(f, repo())}:{i}", "where_key": w} for f, i, w in finds[:8]]}
    return {"verdict": "proved", "paths": n, "proved_paths": n, "funcs": [os.path.relpath(f, repo()) for f in info]}


def ob_c20(tier):
    return [Direct("VHDL-93 front end accepts every RTL file in dependency order", ghdl93, "hdl/*.vhd"),
            Direct("only standard libraries are used", libs, "hdl/*.vhd")]


if __name__ == "__main__":
    from ob import run_ob, print_res
    for o in ob_c20("quick"):
        print_res(run_ob(o, "quick"))
