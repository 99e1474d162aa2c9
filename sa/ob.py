"""Obligations, verdicts and the check driver."""
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
from num import Ctx, explore, Undecided, Infeasible
from poly import Poly
import pyabs as A
from pylib import Finding, Missing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ob:
    """One proof obligation: fn(ctx) runs the abstract interpretation of the code and of the oracle on one
    cell of the trace partition and raises Finding on a deviation."""

    def __init__(self, name, P, fn, entry="", weight=1, budget=None):
        self.name, self.P, self.fn, self.entry, self.weight = name, P, fn, entry, weight
        self.budget = budget


class Direct:
    """Obligation decided without trace partitioning: fn() -> (verdict, detail, stats)."""

    def __init__(self, name, fn, entry=""):
        self.name, self.fn, self.entry = name, fn, entry
        self.weight = 1
        self.budget = None


def show_cell(ctx, limit=14):
    out = [f"{L} >= 0" for L in ctx.P.constraints()]
    return out[-limit:]


def inputs_at(ctx, pt):
    d = {}
    for k, e in ctx.inputs.items():
        try:
            d[k] = str(ctx.norm(e).at(pt))
        except Exception:
            pass
    return d


class OutOfTime(BaseException):
    """the CPU-time budget of an obligation has run out in the middle of a path"""


def _ring(*_):
    raise OutOfTime()


def run_ob(ob, tier):
    budget = ob.budget or (75 if tier == "quick" else 600)
    old = signal.signal(signal.SIGPROF, _ring)
    part = {}
    signal.setitimer(signal.ITIMER_PROF, 1.25 * budget + 5)
    try:
        r = _run_ob(ob, tier, part)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return r
    except OutOfTime:
        fs = part.get("findings", [])
        return {"name": ob.name, "entry": ob.entry, "verdict": "violated" if fs else "undecided", "paths": part.get("paths", 0), "proved_paths": 0,
                "reasons": {"analysis time budget (one path)": 1}, "findings": fs, "funcs": [], "wall": budget}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def _run_ob(ob, tier, part):
    t0 = time.time()
    budget = ob.budget or (75 if tier == "quick" else 600)
    if isinstance(ob, Direct):
        try:
            r = ob.fn()
        except Undecided as u:
            r = {"verdict": "undecided", "reasons": {str(u): 1}}
        except Missing as m:
            r = {"verdict": "missing", "reasons": {str(m): 1}}
        except Exception:
            r = {"verdict": "undecided", "reasons": {"analyser: " + traceback.format_exc(limit=-3): 1}}
        r.setdefault("paths", 1)
        r.setdefault("proved_paths", 1 if r["verdict"] == "proved" else 0)
        r.setdefault("funcs", [])
        r.setdefault("findings", [])
        r.setdefault("reasons", {})
        r.update(name=ob.name, entry=ob.entry, wall=round(time.time() - t0, 3))
        return r
    deadline = time.process_time() + budget          # CPU time: a loaded machine does not change the verdict
    npaths = nok = 0
    reasons, findings, funcs = {}, [], set()
    part["findings"] = findings
    missing = None

    def run(ctx):
        try:
            return ("ok", ob.fn(ctx))
        except Finding as f:
            return ("finding", f)
        except A.PyRaise as e:
            return ("raise", e)

    it = explore(lambda pre: Ctx(ob.P, pre), run, deadline=deadline)
    while True:
        try:
            p = next(it)
        except StopIteration:
            break
        except Missing as m:
            missing = str(m)
            break
        except RecursionError:
            reasons["analyser recursion"] = reasons.get("analyser recursion", 0) + 1
            break
        except Exception:
            k = "analyser: " + traceback.format_exc(limit=-2).strip().replace("\n", " | ")
            reasons[k] = reasons.get(k, 0) + 1
            break
        npaths += 1
        if p.ctx is not None:
            funcs |= getattr(p.ctx, "funcs", set())
        if p.error is not None:
            k = str(p.error)
            reasons[k] = reasons.get(k, 0) + 1
            continue
        kind, val = p.result
        if kind == "ok" and getattr(p.ctx, "soft", None):
            reasons[p.ctx.soft] = reasons.get(p.ctx.soft, 0) + 1
            continue
        if kind == "ok":
            nok += 1
            continue
        ctx = p.ctx
        if kind == "raise":
            f = Finding(f"unexpected {val.name} {val.msg}".strip(), kind="raise:" + val.name, where=None)
            loc = val.where
        else:
            f = val
            loc = None
        pred = f.pred or (lambda pt: True)
        if f.where is not None and f.kind == "value":
            got, want = f.where

            def pred(pt, got=got, want=want):
                return ctx.norm(A.Expr.of(got)).at(pt) != ctx.norm(A.Expr.of(want)).at(pt)
        try:
            w = ctx.witness(pred)
        except (Undecided, Infeasible, KeyError, OverflowError):
            w = None
        if w is None:
            k = "possible deviation without a concrete instance: " + f.msg
            reasons[k] = reasons.get(k, 0) + 1
            continue
        trace = getattr(ctx, "trace", [])
        if loc is None and f.kind == "warn":
            loc = next((e[-1] for e in reversed(ctx.events) if e[0] == "warn" and e[-1] != "summary"), None)
        pars = {k: x for k, x in w.items() if k in ob.P.idx}
        det = {"what": f.msg, "kind": f.kind, "entry": ob.entry, "at": str(loc) if loc else (trace[-1] if trace else ob.entry),
               "formats": pars, "data": inputs_at(ctx, w), "trace": trace[-60:], "cell": show_cell(ctx)}
        if f.where is not None and f.kind == "value":
            det["computed"] = str(ctx.norm(A.Expr.of(f.where[0])).at(w))
            det["required"] = str(ctx.norm(A.Expr.of(f.where[1])).at(w))
        findings.append(det)
        if len(findings) >= 5:
            break
    if missing:
        v = "missing"
        reasons[missing] = 1
    elif findings:
        v = "violated"
    elif reasons:
        v = "undecided"
    elif nok == 0:
        v = "vacuous"
    else:
        v = "proved"
    return {"name": ob.name, "entry": ob.entry, "verdict": v, "paths": npaths, "proved_paths": nok,
            "reasons": reasons, "findings": findings, "funcs": sorted(str(x) for x in funcs),
            "wall": round(time.time() - t0, 3)}


_OBS = []
_TIER = "quick"


def _work(i):
    try:
        return run_ob(_OBS[i], _TIER)
    except MemoryError:
        return {"name": _OBS[i].name, "entry": _OBS[i].entry, "verdict": "undecided", "paths": 0, "proved_paths": 0,
                "reasons": {"memory": 1}, "findings": [], "funcs": [], "wall": 0}


def run_all(obs, tier, jobs=None, deadline=None, verbose=False, stop_after=None):
    global _OBS, _TIER
    _OBS, _TIER = obs, tier
    jobs = jobs or min(8, os.cpu_count() or 1)
    order = sorted(range(len(obs)), key=lambda i: -obs[i].weight)
    out = []
    t0 = time.time()
    if jobs == 1:
        for i in order:
            out.append(_work(i))
            if verbose:
                print_res(out[-1])
        return out
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs, maxtasksperchild=8)
    done = set()
    nviol = 0
    try:
        it = pool.imap_unordered(_work, order, chunksize=1)
        for _ in order:
            left = None if deadline is None else max(1, deadline - (time.time() - t0))
            try:
                r = it.next(timeout=left)
            except mp.TimeoutError:
                break
            out.append(r)
            done.add(r["name"])
            if verbose:
                print_res(r)
            nviol += r["verdict"] == "violated"
            if stop_after and nviol >= stop_after:
                break
    finally:
        pool.terminate()
        pool.join()
    for ob in obs:
        if ob.name not in done:
            out.append({"name": ob.name, "entry": ob.entry, "verdict": "undecided", "paths": 0, "proved_paths": 0,
                        "reasons": {"not reached (time budget of the check, or enough violations)": 1}, "findings": [], "funcs": [], "wall": 0})
    return out


def print_res(r):
    print(f"  {r['verdict']:10s} {r['name']}  paths={r['paths']} t={r['wall']}", flush=True)
    if r["verdict"] == "violated":
        for f in r["findings"][:3]:
            print("      ", f["what"], f["at"], f.get("formats"), f.get("data"), f.get("computed"), f.get("required"))
    for k, n in list(r["reasons"].items())[:4]:
        print("       ?", n, k[:400])
