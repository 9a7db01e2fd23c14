#!/usr/bin/env python3
"""Confirms planted bugs: `seed.py ID...` (or all).  For each: applies the patch to /repo, builds, runs the stable tests, the
demonstration with and without it, and the property's check; always undoes the patch.  `--checks all` runs every check."""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    args = sys.argv[1:]
    allc = "--all" in args
    args = [a for a in args if not a.startswith("--")]
    base = os.path.join(ROOT, "seeded")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    for i in sorted(args or os.listdir(base)):
        d = os.path.join(base, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        res = []
        clean = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
        res.append("demo clean %d" % clean.returncode)
        a = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stderr)
            continue
        try:
            b = sh("bash", "/opt/vp/build.sh", cwd="/repo")
            res.append("build %d" % b.returncode)
            t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json", cwd="/repo")
            o = json.load(open("/tmp/seed_out.json"))
            passed = set(o.get("passed", o.get("pass", [])))
            res.append("tests ok" if stable <= passed else "TESTS FAIL %s" % (stable - passed))
            p = sh("bash", os.path.join(d, "demo.sh"), cwd="/repo")
            res.append("demo patched %d" % p.returncode)
            man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
            ids = [c["property"] for c in man["checks"]] if allc else [meta["property"]]
            hits = []
            for c in ids:
                r = sh("python3", "check.py", c, cwd=ROOT)
                if r.returncode == 1 and ("VIOLATION property=%s " % c) in r.stdout:
                    hits.append(c)
                elif r.returncode or not allc:
                    hits.append("%s:exit%d %s" % (c, r.returncode, r.stdout[-400:]))
            res.append("caught by %s" % hits)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        bad = clean.returncode or b.returncode or p.returncode == 0 or "tests ok" not in res
        print(i, meta["property"], "BAD" if bad else "ok", "; ".join(res), (clean.stdout + clean.stderr)[-600:] if clean.returncode else "",
              b.stderr[-600:] if b.returncode else "")


main()
