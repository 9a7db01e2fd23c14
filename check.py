#!/usr/bin/env python3
"""Decide one property on /repo's current sources.

usage: check.py <ID> [--tier quick|thorough]
exit 0: holds on everything analysed; exit 1: VIOLATION line; exit 2: the check could not be set up
(the analysed crate does not compile, or an entry point the property speaks about is gone)."""
import argparse
import importlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.setrecursionlimit(20000)

from checks import registry                                    # noqa: E402

G = {}


def job(i):
    """One obligation, in a worker process."""
    from engine import explore as ex
    from engine.values import Missing
    spec = G["obs"][i]
    left = max(2.0, G["deadline"] - time.time())
    try:
        r = ex.explore(G["prog"], spec.name, spec.run, spec.hooks, unroll=spec.unroll, budget=min(spec.budget, left),
                       max_paths=spec.max_paths, setup=spec.setup)
        small = None
        if not r.bad and (r.undecided or not r.complete):
            # what the summaries do not follow is looked at once more with sizes that are known numbers
            t0 = time.time()
            for k in SMALL[G["tier"]]:
                left = min(SMALL_BUDGET - (time.time() - t0), max(2.0, G["deadline"] - time.time()))
                if small is not None and (left < 5 or small.bad or not small.complete or 8 * small.wall > left):
                    break
                small = ex.explore(G["prog"], spec.name, spec.run, spec.hooks, unroll=max(spec.unroll, 40), budget=left,
                                   max_paths=spec.max_paths, setup=spec.setup, small=k)
                small.k = k
                r.bad = small.bad
    except Missing as e:
        return {"name": spec.name, "missing": str(e)}
    except Exception:
        return {"name": spec.name, "error": traceback.format_exc()[-3000:]}
    fns = sorted({G["prog"].fns[f]["name"] for f in r.locals if G["prog"].fns[f]["crate"] != G["prog"].crate})
    return {
        "name": spec.name, "ok": r.ok, "dead": r.dead, "paths": r.paths, "steps": r.steps, "wall": round(r.wall, 3),
        "complete": r.complete, "undecided": r.undecided, "functions": fns,
        "small": small and {"sizes_up_to": small.k, "ok": small.ok, "paths": small.paths, "complete": small.complete, "undecided": small.undecided, "wall": round(small.wall, 3)},
        "bad": [{"text": b.text, "where": b.where, "instance": ex.describe(b)} for b in r.bad],
    }


SMALL, SMALL_BUDGET = {"quick": (2, 3), "thorough": (2, 3, 4)}, 60.0


def strip_lines(s):
    return re.sub(r":\d+(:\d+)?", "", s or "")


def known(prop):
    """Findings listed for the unchanged tree: {key: text}."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    entry = registry.PROPERTIES[a.id]
    mod = importlib.import_module(entry["module"])
    kind = entry.get("kind", "interp")
    if kind == "interp":
        res = run_interp(a, mod, entry)
    else:
        res = getattr(mod, entry["entry"])(a.tier)
    return report(a, entry, res, t0)


def run_interp(a, mod, entry):
    import dump
    from engine.prog import Prog
    try:
        path, dropped = dump.dump_tolerant(entry.get("probe", "input_tree_probe"))
    except subprocess.CalledProcessError as e:
        sys.stderr.write((e.stderr or "")[-4000:])
        print("CHECK-ERROR: the analysed crate does not compile")
        sys.exit(2)
    prog = Prog(path)
    obs = getattr(mod, entry["entry"])(a.tier)
    if a.only:
        obs = [o for o in obs if a.only in o.name]
    G["prog"] = prog
    G["tier"] = a.tier
    G["deadline"] = time.time() + (420 if a.tier == "quick" else 780)
    G["obs"] = obs
    n = min(8, len(obs))
    if n > 1:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            rs = pool.map(job, range(len(obs)), chunksize=1)
    else:
        rs = [job(i) for i in range(len(obs))]
    viol = []
    errs = []
    missing = []
    und = {}
    fns = set()
    for r in rs:
        if "missing" in r:
            missing.append("%s: %s" % (r["name"], r["missing"]))
            continue
        if "error" in r:
            errs.append(r)
            continue
        fns |= set(r["functions"])
        for k, c in r["undecided"].items():
            und.setdefault(r["name"], {})[k[:300]] = c
        for b in r["bad"]:
            viol.append({"obligation": r["name"], "text": b["text"], "where": b["where"], "instance": b["instance"],
                         "key": re.sub(r"\W+", "-", r["name"] + "--" + strip_lines((b["where"] or "").split(" (")[0] or b["text"][:60])).strip("-")})
    done = [r for r in rs if "ok" in r]
    proved = [r for r in done if r["complete"] and not r["undecided"] and not r["bad"] and r["ok"]]
    cov = {
        "explanation": entry["explain"],
        "obligations": len(obs), "discharged": len(proved),
        "disjuncts": sum(r["paths"] for r in done), "disjuncts_discharged": sum(r["ok"] for r in done),
        "abstract_steps": sum(r["steps"] for r in done),
        "functions_analysed": sorted(fns), "functions": len(fns),
        "per_obligation": [{k: r[k] for k in ("name", "ok", "dead", "paths", "steps", "wall", "complete")} for r in done],
        "undecided": und, "missing_entry_points": missing, "dropped_entry_points": dropped,
        "undecided_but_decided_for_small_sizes": {r["name"]: r["small"]["sizes_up_to"] for r in done if r["small"] and r["small"]["complete"] and not r["small"]["undecided"] and not r["bad"]},
        "internal_errors": [e["name"] + ": " + e["error"][-2500:] for e in errs],
    }
    fatal = None
    if not done or len(missing) * 2 > len(obs):
        fatal = "entry points of the property are gone: " + "; ".join(missing[:5] + [e["error"][-300:] for e in errs[:2]])
    return {"violations": viol, "coverage": cov, "fatal": fatal, "results": rs}


def report(a, entry, res, t0):
    kn = known(a.id)
    new = [v for v in res["violations"] if v["key"] not in kn]
    seen = {v["key"] for v in res["violations"]}
    for k in sorted(seen & set(kn)):
        print("KNOWN-FINDING: property=%s %s" % (a.id, kn[k]))
    ev = {
        "property": a.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": entry["level"],
        "coverage": res["coverage"], "assumptions": entry["assumptions"], "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = res["coverage"]
    print("%s: %s of %s obligations discharged, %s disjuncts, %s functions, %.1fs" % (
        a.id, c.get("discharged"), c.get("obligations"), c.get("disjuncts", "-"), c.get("functions", "-"), time.time() - t0))
    if a.v:
        for r in res.get("results", []):
            print("  ", r["name"], {k: r[k] for k in r if k in ("ok", "paths", "wall", "complete", "missing", "error", "small")},
                  {k[:200]: v for k, v in r.get("undecided", {}).items()})
    for n, u in c.get("undecided", {}).items():
        for k, v in u.items():
            print("  undecided (%d) in %s: %s" % (v, n, k[:200]))
    for e in c.get("internal_errors", []):
        print("  internal error:", e[-2500:])
    for m in c.get("missing_entry_points", []):
        print("  missing:", m)
    if new:
        p = os.path.join(d, a.id + "-violation.json")
        with open(p, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:5]:
            print("  in %s: %s%s" % (v["obligation"], v["text"][:600], " at " + v["where"] if v["where"] else ""))
            if v.get("instance"):
                print("     for example with " + v["instance"][:1200])
        print("VIOLATION property=%s replay=%s" % (a.id, p))
        return 1
    if res.get("fatal"):
        print("CHECK-ERROR: " + res["fatal"])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
