"""V01, V03, V04, V05: the renderer, interpreted from the TypeScript sources, on the trees the Rust parser yields."""
import json
import multiprocessing
import multiprocessing.pool
import os
import re
import subprocess
import tempfile
import time

from .base import *
from .syntax import Parser, Box, boxes, token, row_text, KINDS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
G = {}


def load():
    import dump
    from engine.prog import Prog
    path, _ = dump.dump_tolerant("parser_probe")
    return Prog(path)


def tree_of(x, p, n):
    kind, sub = p.children(n)
    width = getattr(p, "width", 1)
    if kind == "rows":
        width = x.ctx.norm(width).const()
    s, e = p.range(n)
    out = {"name": p.name(n), "kind": kind, "start": x.ctx.norm(s).const(), "end": x.ctx.norm(e).const()}
    if out["start"] is None or out["end"] is None:
        raise Unknown("a range that depends on the input")
    if kind == "leaf":
        from engine.models import text_of
        out["symbols"] = [text_of(x.it, c) for c in sub]
        if None in out["symbols"]:
            raise Unknown("text of a leaf")
        ty = x.ctx.get(x.ctx.vget(x.ctx.get(n, "children"), "Leaf", "0"), "node_type")
        out["type"] = "Operator" if x.ctx.is_variant(ty, "Operator") else "Symbol"
    else:
        out["children"] = [tree_of(x, p, c) for c in sub]
        if kind == "rows":
            out["width"] = width
    return out


def names_job(_):
    from engine import explore as ex
    out = []

    def run(x):
        p = Parser(x, "parser_standard")
        ty = x.argtys("name_of")[1]
        for i in range(1000):
            v = Agg(ty, 0, (P.c(i),))
            got = option(x, x.run("name_of", x.ref(p.modules), v))
            if got is None:
                return
            from engine.models import text_of
            out.append("::".join(text_of(x.it, s.cell.v) for s in only_vec(x, deref(x, got)).segs))
    r = ex.explore(G["prog"], "names", run, TreeHooks, unroll=10 ** 6, budget=200)
    if r.ok != 1 or r.undecided:
        raise RuntimeError("names: %s" % r.undecided)
    return out


def tree_job(i):
    from engine import explore as ex
    toks = G["rows"][i]
    out = []

    def run(x):
        p = Parser(x, "parser_standard")
        vals = [token(x, p, t) for t in toks]
        try:
            n = p.parse(vals)
        except Panic:
            return                    # X02's business
        out.append(tree_of(x, p, n))
    try:
        r = ex.explore(G["prog"], "tree", run, TreeHooks, unroll=200, budget=60)
    except Missing as e:
        return i, None, str(e)
    if not out or r.undecided:
        return i, None, str(r.undecided or "no tree")
    return i, out[0], None


def words():
    """One token (or word) of every class of the rules."""
    one = ["a", "1", " ", "+", "*", "=", ",", "!", "(", ")", "∑", "¬", "@", "\""]
    return [[c] for c in one] + [[boxes([k])[0]] for k in KINDS]


def rows(tier):
    ws = words()
    more = [list("lim"), list("12.5"), ["∞"], ["∧"], list("\"ab\""), ["-"], ["/"], ["<"], ["⇔"], ["∫"], list("true"), ["⊤"]]
    out = [[]] + ws + more
    out += [a + b for a in ws for b in ws]
    b1 = [boxes([k])[0] for k in KINDS]
    sp, a = [" "], ["a"]
    for b in b1:
        out += [a + sp + [b], a + [b] + sp, sp + a + [b] + sp, a + sp + [b] + sp, a + [b] + a, a + [b] + ["+"] + a, ["+", b, " "], ["∑", " ", b, "a"], ["(", b, ")"], a + ["("] + [b, ")"],
                ["∑", b, b, "a"], a + [b, b], a + sp + sp + [b] + sp, ["("] + a + [b] + [")", b], list("lim") + [b] + a, a + ["+", b] + a]
        for c in b1:
            out.append([Box(b.kind, [[c] if i == 0 else r for i, r in enumerate(b.rows)], b.width)])
            out.append([Box(b.kind, [["a", c, " "]] * len(b.rows), b.width)])
        out.append([Box(b.kind, [[]] * len(b.rows), b.width)])
    for b in boxes(KINDS):
        out.append([b])
    for w, h in ((1, 1), (1, 2), (2, 1), (3, 2), (2, 3)):
        out.append([Box("Table", [[chr(ord("a") + i % 8)] for i in range(w * h)], w)])
    out += [a + ["+"] + a, a + ["*"] + a + ["+"] + a, a + [","] + a + [","] + a, ["f", "(", "a", ")"], ["f", "(", ")"], ["(", "a", "+"], ["-"] + a + ["!"], list("1+2=3"), list("(a,b)"), list(" a + b "), list("a=b<c"),
            ["(", ["Sub"][0] and boxes(["Sub"])[0], ")"]]
    if tier == "thorough":
        out += [a_ + b + c for a_ in ws for b in ws for c in ws if any(isinstance(t, Box) for t in a_ + b + c)]
    seen, uniq = set(), []
    for r in out:
        k = repr([row_text([t]) for t in r])
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    return uniq


def gather(tier, want):
    """(names, trees, undecided rows) of the Rust side."""
    prog = load()
    G["prog"] = prog
    with multiprocessing.get_context("fork").Pool(1) as pool:
        names = pool.map(names_job, [0])[0]
    trees, und = [], {}
    if want:
        G["rows"] = rows(tier)
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for i, t, why in pool.imap_unordered(tree_job, range(len(G["rows"])), chunksize=4):
                name = row_text(G["rows"][i]) or "nothing"
                if t is None:
                    und["parse " + name] = {why[:200]: 1}
                else:
                    trees.append({"row": name, "tree": t, "size": len(G["rows"][i])})
    trees.sort(key=lambda t: (t["size"], t["row"]))
    return names, trees, und


def node(job):
    d = tempfile.mkdtemp(prefix="front-")
    jf, of = os.path.join(d, "job.json"), os.path.join(d, "out.json")
    with open(jf, "w") as f:
        json.dump(job, f)
    r = subprocess.run(["node", "--stack-size=8000", os.path.join(ROOT, "engine/ts/main.mjs"), jf, of], capture_output=True, text=True)
    if r.returncode or not os.path.exists(of):
        raise RuntimeError("front end analysis: " + (r.stderr or r.stdout)[-2000:])
    out = json.load(open(of))
    for f in (jf, of):
        os.remove(f)
    os.rmdir(d)
    return out


def small(trees, most):
    """The trees with few caret places."""
    def places(t):
        n = 0
        if t["kind"] == "rows":
            for c in t["children"]:
                n += c["end"] - c["start"] + 1
        return n + sum(places(c) for c in t.get("children", ()))
    return [t["row"] for t in trees if t["tree"]["end"] + 1 + places(t["tree"]) <= most]


def run(prop, tier, trees=True, chunk=0):
    import subprocess as sp
    try:
        if trees is None:
            names, ts_, und = [], [], {}
        else:
            names, ts_, und = gather(tier, trees)
    except sp.CalledProcessError as e:
        return {"violations": [], "fatal": "the analysed crate does not compile: " + (e.stderr or "")[-500:], "coverage": {}, "results": []}
    base = {"property": prop, "root": REPO, "names": names, "selections": small(ts_, 6 if tier == "quick" else 8), "near": small(ts_, 7 if tier == "quick" else 99), "clicks": small(ts_, 4 if tier == "quick" else 5), "seconds": 300 if tier == "quick" else 600}
    jobs = []
    n = 8 if len(ts_) > 16 else 1
    for i in range(n):
        jobs.append(dict(base, trees=ts_[i::n]))
    with multiprocessing.pool.ThreadPool(n) as pool:
        outs = pool.map(node, jobs)
    return outcome(prop, [r for o in outs for r in o["results"]], sorted({v for o in outs for v in o["visited"]}), und, len(ts_), len(names))


def outcome(prop, rs, visited, und, ntrees, nnames):
    from . import registry
    viol, errs = [], []
    keys = set()
    for r in rs:
        if r.get("error"):
            errs.append(r["name"] + ": " + r["error"])
        if r["undecided"]:
            und[r["name"]] = r["undecided"]
        for v in r["violations"]:
            where = v["where"][0] if v["where"] else None
            key = re.sub(r"\W+", "-", re.sub(r":\d+", "", where or "") + "--" + v["text"][:100]).strip("-")
            if key in keys:
                continue
            keys.add(key)
            viol.append({"obligation": r["name"], "text": v["text"], "where": " < ".join(v["where"][:4]) or None, "instance": None, "key": key})
    done = [r for r in rs if not r.get("error")]
    proved = [r for r in done if r["ok"] and r["complete"] and not r["undecided"] and not r["violations"]]
    cov = {"explanation": registry.PROPERTIES[prop]["explain"], "obligations": len(rs), "discharged": len(proved), "disjuncts": sum(r["paths"] for r in done), "abstract_steps": sum(r["steps"] for r in done),
           "functions": len(visited), "functions_analysed": visited, "syntax_trees": ntrees, "registered_names": nnames, "undecided": und, "internal_errors": errs,
           "per_obligation": [{"name": r["name"], "paths": r["paths"], "ok": r["ok"]} for r in rs[:400]]}
    fatal = "nothing could be analysed: " + "; ".join(errs[:2]) if not done else None
    return {"violations": viol, "coverage": cov, "fatal": fatal, "results": [dict(r, undecided=r["undecided"]) for r in rs]}


def v01(tier):
    return run("V01", tier, trees=False)


def v03(tier):
    return run("V03", tier)


def v04(tier):
    return run("V04", tier)


def v05(tier):
    return run("V05", tier, trees=None)


PLAIN = [["a", "+", "a"], ["a", "+", "a", "+", "a"]]


def v06(tier):
    """The editor element: needs a few trees only, and the operations the core offers."""
    prog = load()
    G["prog"] = prog
    b = boxes(["Fraction", "Sup", "Root"])
    table = Box("Table", [[chr(ord("a") + i)] for i in range(4)], 2)
    drawn = [["a"], ["a", "+", "b"], [b[0]], ["a", table], ["a", b[-1]]]
    if tier == "thorough":
        drawn += [[x] for x in boxes(KINDS)] + [list("f(a)"), list("12.5"), ["a", b[0], "b"], [Box("Table", [[chr(ord("a") + i)] for i in range(6)], 3)]]
    G["rows"] = PLAIN + drawn
    with multiprocessing.get_context("fork").Pool(8) as pool:
        names = pool.map(names_job, [0])[0]
        got = pool.map(tree_job, range(len(G["rows"])), chunksize=1)
    und = {"parse " + row_text(G["rows"][i]): {why[:200]: 1} for i, t, why in got if t is None}
    trees = {row_text(G["rows"][i]): t for i, t, why in got if t is not None}
    text = open(os.path.join(REPO, "aftermath-core/web/src/math_editor.rs")).read()
    body = text[text.index("impl MathEditorBindings"):].split("\n}", 1)[0]
    methods = [m for m in re.findall(r"pub fn (\w+)", body) if m != "new"]
    parser = open(os.path.join(REPO, "aftermath-core/web/src/math_parser.rs")).read()
    creators = re.findall(r"pub fn (make_\w+)", parser)
    base = {"property": "V06", "root": REPO, "names": names, "trees": [{"row": r, "tree": t} for r, t in trees.items()], "plain": [row_text(r) for r in PLAIN], "drawn": [row_text(r) for r in drawn if row_text(r) in trees],
            "methods": methods, "creators": creators, "selections": [], "near": [], "clicks": [], "seconds": 300 if tier == "quick" else 600}
    out = node(base)
    return outcome("V06", out["results"], out["visited"], und, len(trees), len(names))
