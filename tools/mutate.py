#!/usr/bin/env python3
"""Small syntactic changes of the analysed code, to look for places no check watches.
   mutate.py OUT.jsonl FILE... [--ids E01,...] [--workers 4] [--sample N] [--seed S] [--no-tests]
Every worker sees its own copy of the repository, of /verif and of the build folder (bind mounts in a user namespace), so /repo stays
as it is.  A change that does not compile or that the tests notice is dropped; the others are listed with the check that reports them, if
any.  A survivor is either a gap or a change that alters nothing a property speaks of: that is for the reader to decide."""
import argparse
import json
import os
import random
import re
import subprocess
import sys
import threading
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [
    (r"<=", ["<"]), (r">=", [">"]), (r"(?<![-=<>])<(?![=<\w>&'])", ["<=", ">"]), (r"(?<![-=>])>(?![=>\w(){};,.?&])", [">=", "<"]),
    (r"==", ["!="]), (r"!=(?!=)", ["=="]), (r"&&", ["||"]), (r"\|\|(?! *[{|])", ["&&"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bLeft\b", ["Right"]), (r"\bRight\b", ["Left"]), (r"\bUp\b", ["Down"]), (r"\bDown\b", ["Up"]),
    (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]), (r"\brow\b", ["column"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\bmin\b(?=[(,])", ["max"]), (r"\bmax\b(?=[(,])", ["min"]),
    (r"\.\.=", [".."]), (r"\.\.(?![.=])(?=\w|\()", ["..="]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\bfirst\(", ["last("]), (r"\blast\(", ["first("]),
    (r"\bSup\b", ["Sub"]), (r"\bSub\b", ["Sup"]), (r"\bFraction\b", ["Table"]), (r"(?<=[( ])!(?=[\w(])", [""]), (r"\binsert\b", ["remove"]), (r"\bremove\b", ["insert"]),
    (r"===", ["!=="]), (r"!==", ["==="]), (r"\?\? ", ["&& "]), (r"\bpop\b", ["shift"]), (r"\bpush\b", ["unshift"]), (r"\b2\b", ["1", "3"]),
]


def mutants(path, text):
    out, tests = [], False
    lines = text.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if not s or s.startswith(("//", "use ", "#", "/*", "*", "mod ", "pub mod", "import ", "export *")):
            continue
        code = l.split("//")[0]
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    out.append((n, l[:m.start()] + r + l[m.end():]))
        # a statement left out, a branch that is never or always taken
        if re.match(r"[\w.&*\[\]()]+(\.\w+\(.*\)|\s*[-+]?=\s*.*);$", s) and not s.startswith("let "):
            out.append((n, l[:len(l) - len(l.lstrip())] + "{}"))
        m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
        if m:
            out += [(n, m[1] + "false && (" + m[2] + ")" + m[3]), (n, m[1] + "true || (" + m[2] + ")" + m[3])]
        m = re.match(r"(\s*)return (.*);$", l)
        if m and m[2].startswith("Some("):
            out.append((n, m[1] + "return None;"))
    seen, res = set(), []
    for n, new in out:
        if new != lines[n] and (n, new) not in seen:
            seen.add((n, new))
            res.append({"file": path, "line": n + 1, "old": lines[n].strip(), "new": new})
    return res


def sh(w, cmd, timeout, env=None):
    inner = f"mount --bind {w}/repo /repo && mount --bind {w}/verif {ROOT} && mount --bind {w}/vp /opt/vp && {cmd}"
    p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", inner], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=dict(os.environ, **(env or {})))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"), a.add_argument("files", nargs="+")
    a.add_argument("--ids", default="E01,E02,E03,E04,R01,O01,S01,S02,F01,F02,G01,G02,P01")
    a.add_argument("--workers", type=int, default=4), a.add_argument("--sample", type=int, default=0), a.add_argument("--seed", type=int, default=1)
    a.add_argument("--no-tests", action="store_true"), a.add_argument("--dry", action="store_true")
    o = a.parse_args()
    ms = []
    for f in o.files:
        ms += mutants(f, open(os.path.join("/repo", f)).read())
    random.Random(o.seed).shuffle(ms)
    if o.sample:
        ms = ms[:o.sample]
    print(len(ms), "changes", flush=True)
    if o.dry:
        return
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    log = open(o.out, "a")

    def work(k):
        w = f"/tmp/mut/w{k}"
        subprocess.run(["rm", "-rf", w])
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"])
        subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", ROOT + "/", w + "/verif/"]) if os.path.exists("/usr/bin/rsync") else subprocess.run(["cp", "-a", ROOT, w + "/verif"])
        subprocess.run(["cp", "-a", "/opt/vp", w + "/vp"])
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(w, "repo", m["file"])
            text = open(p).read()
            lines = text.split("\n")
            lines[m["line"] - 1] = m["new"]
            with open(p, "w") as f:
                f.write("\n".join(lines))
            res = dict(m)
            try:
                if not o.no_tests:
                    rc, out = sh(w, "bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mut/o%d.json" % k, 300)
                    if rc == 0:
                        try:
                            rc = 1 if json.load(open("/tmp/mut/o%d.json" % k)).get("failed") else 0
                        except Exception:
                            rc = 1
                    if rc:
                        res["result"] = "dropped"
                        continue
                res["result"] = "survived"
                res["und"] = []
                for i in o.ids.split(","):
                    rc, out = sh(w, f"cd {ROOT} && python3 check.py {i}", 600)
                    if rc == 1:
                        res["result"] = "caught"
                        res["by"] = i
                        break
                    if rc == 2 and "compile" in out:
                        res["result"] = "dropped"
                        break
                    t = re.search(r"(\d+) of (\d+) obligations", out)
                    if rc or (t and t[1] != t[2]):
                        res["und"].append(i if rc == 0 else f"{i}!{rc}")
            finally:
                with open(p, "w") as f:
                    f.write(text)
                with lock:
                    log.write(json.dumps(res) + "\n")
                    log.flush()
        subprocess.run(["rm", "-rf", w])
    ts = [threading.Thread(target=work, args=(k,)) for k in range(o.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    rs = [json.loads(l) for l in open(o.out)]
    from collections import Counter
    print(Counter(r["result"] for r in rs))


main()
