#!/usr/bin/env python3
"""Driver:  python3 check.py <property id> [quick|thorough]

Runs the static analysis of one property on the current sources in /repo (VERIF_REPO overrides the location),
prints what was analysed, rewrites evidence/<id>.json and exits
  0  property holds on everything analysed (undecided obligations, if any, are disclosed)
  1  a violation was found (line 'VIOLATION property=<id> replay=<path>')
  2  the analysis could not be carried out (an anchor has vanished)."""
import collections
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import registry  # noqa: E402
from ob import run_all  # noqa: E402


def known_findings(pid):
    """'finding: property=<id> key=<key> <what fails>' lines; 'fixed:' lines document repairs and suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                parts = dict(x.split("=", 1) for x in line.split()[1:3] if "=" in x)
                if parts.get("property") == pid:
                    out[parts["key"]] = line.split(None, 3)[3]
    return out


def key_of(r, f):
    return (r["name"] + "|" + f.get("kind", "") + "|" + str(f.get("where_key", ""))).replace(" ", "_")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = registry.SPEC[pid]
    t0 = time.time()
    obs = spec["obs"](tier)
    limit = float(os.environ.get("VERIF_LIMIT", "600" if tier == "quick" else "10800"))
    rs = run_all(obs, tier, deadline=limit, stop_after=12)
    wall = time.time() - t0
    cnt = collections.Counter(r["verdict"] for r in rs)
    funcs = sorted({f for r in rs for f in r["funcs"]})
    paths = sum(r["paths"] for r in rs)
    print(f"property {pid}: {spec['title']}")
    print(f"rule: {spec['rule']}")
    print(f"analysed: {len(rs)} obligations, {paths} abstract paths, {len(funcs)} functions / constructs, tier {tier}, {wall:.1f} s")
    byent = collections.defaultdict(collections.Counter)
    for r in rs:
        byent[r["entry"]][r["verdict"]] += 1
    for e in sorted(byent):
        print(f"  {e}: " + ", ".join(f"{n} {k}" for k, n in sorted(byent[e].items())))
    known = known_findings(pid)
    viol, kf = [], []
    for r in rs:
        if r["verdict"] != "violated":
            continue
        fs = [f for f in r["findings"]]
        new = [f for f in fs if key_of(r, f) not in known]
        for f in fs:
            if key_of(r, f) in known:
                kf.append((r, f))
        if new:
            viol.append((r, new))
    for r in rs:
        if r["verdict"] == "undecided":
            why = "; ".join(f"{k[:300]} (x{n})" for k, n in list(r["reasons"].items())[:2])
            print(f"UNDECIDED {r['name']}: {why}")
    seen = set()
    for r, f in kf:
        k = key_of(r, f)
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    bad = [r for r in rs if r["verdict"] in ("missing", "vacuous")]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": round(wall, 2),
          "violations": len(viol), "assumptions": spec["assumptions"],
          "coverage": {"obligations": len(rs), "discharged": cnt["proved"], "undecided": cnt["undecided"],
                       "known_findings": len(seen), "abstract_paths": paths, "functions_analysed": funcs,
                       "checker_cmd": f"python3 check.py {pid} {tier}", "trusted_base": spec["trusted"],
                       "rule": spec["rule"],
                       "explanation": spec["explanation"] + f" This run: {len(rs)} obligations, {cnt['proved']} discharged, "
                       f"{cnt['undecided']} undecided, {len(viol)} violated.",
                       "samples": [{"obligation": r["name"], "entry": r["entry"], "verdict": r["verdict"], "paths": r["paths"],
                                    "wall_s": r["wall"]} for r in sorted(rs, key=lambda r: -r["paths"])[:12]],
                       "undecided_list": [{"obligation": r["name"], "reasons": list(r["reasons"])[:3]} for r in rs if r["verdict"] == "undecided"][:60]}}
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if viol:
        rp = os.path.join(HERE, "evidence", "replay", pid + ".json")
        with open(rp, "w") as fh:
            json.dump([{"obligation": r["name"], "entry": r["entry"], "findings": fs} for r, fs in viol], fh, indent=1, default=str)
            fh.write("\n")
        for r, fs in viol[:8]:
            f = fs[0]
            print(f"violated: {r['name']}")
            print(f"  construct: {f.get('at')}")
            print(f"  {f['what']}")
            if f.get("formats") or f.get("data"):
                print(f"  instance: {f.get('formats')} {f.get('data')} computed {f.get('computed')} required {f.get('required')}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rp, HERE)}")
        return 1
    if bad:
        for r in bad:
            print(f"ANALYSIS ERROR {r['name']}: {r['verdict']}: {list(r['reasons'])[:2]}")
        return 2
    print(f"OK property={pid}: {cnt['proved']} of {len(rs)} obligations discharged, {cnt['undecided']} undecided")
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
