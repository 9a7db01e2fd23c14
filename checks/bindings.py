"""V02: the front end type-checked against the interface the core's sources declare to JavaScript.

wasm-bindgen and tsify derive that interface from the Rust sources; it is derived here the same way (their code generators are not
installed).  Nothing is run: the declarations are handed to the TypeScript type checker together with the front end."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|r(\#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])'|'[A-Za-z_]\w*|[A-Za-z_]\w*|\d[\w.]*|->|=>|::|\.\.=?|[^\s]''', re.S)


def tokens(src):
    return [(m.group(0), m.start()) for m in TOK.finditer(src) if not m.group(0).startswith(("//", "/*"))]


class Parse:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1][0]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        if not self.eat(x):
            raise SyntaxError("%r expected, found %r" % (x, self.peek()))

    def group(self):
        """The tokens of a bracketed group, which the cursor leaves behind."""
        close = {"(": ")", "[": "]", "{": "}"}[self.peek()]
        start, depth, opens = self.i, 0, self.peek()
        while True:
            x = self.next()
            if x in "([{" and len(x) == 1:
                depth += 1
            elif x in ")]}" and len(x) == 1:
                depth -= 1
                if depth == 0:
                    return self.t[start + 1:self.i - 1]
            if self.i >= len(self.t):
                raise SyntaxError("unbalanced %s" % opens)

    def attrs(self):
        out = []
        while self.peek() == "#":
            self.next()
            self.eat("!")
            out.append("".join(x if not re.match(r"\w", x) else " " + x for x, _ in self.group()).strip())
        return out

    def vis(self):
        if self.eat("pub"):
            if self.peek() == "(":
                self.group()
            return True
        return False

    def generics(self):
        """Names of the type parameters."""
        out = []
        if self.eat("<"):
            depth, name = 1, True
            while depth:
                x = self.next()
                if x == "<":
                    depth += 1
                elif x == ">":
                    depth -= 1
                elif depth == 1 and x == ",":
                    name = True
                    continue
                elif name and re.match(r"[A-Za-z_]", x):
                    out.append(x)
                    name = False
                elif x == ":":
                    name = False
                if x.startswith("'") and depth == 1:
                    name = False
        return out

    def type(self):
        """A type as a tree: (name, [arguments])."""
        x = self.next()
        if x == "&":
            if self.peek().startswith("'"):
                self.next()
            self.eat("mut")
            return ("&", [self.type()])
        if x == "(":
            parts = []
            while not self.eat(")"):
                parts.append(self.type())
                self.eat(",")
            return ("tuple", parts)
        if x == "[":
            t = self.type()
            if self.eat(";"):
                while not self.eat("]"):
                    self.next()
            else:
                self.want("]")
            return ("slice", [t])
        if x in ("dyn", "impl"):
            return ("dyn", [self.type()])
        name = x
        while self.eat("::"):
            if self.peek() == "<":
                break
            name = self.next()
        args = []
        if self.eat("<"):
            while not self.eat(">"):
                if self.peek().startswith("'"):
                    self.next()
                else:
                    args.append(self.type())
                self.eat(",")
        return (name, args)


class Unsupported(Exception):
    pass


def items(src):
    """(kind, name, …) of the items of a file that matter for JavaScript."""
    p = Parse(tokens(src))
    out = []
    while p.i < len(p.t):
        at = p.attrs()
        p.vis()
        x = p.peek()
        if x in ("struct", "enum") and re.match(r"[A-Za-z_]", p.peek(1)):
            p.next()
            name = p.next()
            gen = p.generics()
            body = None
            if p.peek() == "where":
                while p.peek() not in ("{", ";", "("):
                    p.next()
            if p.peek() in ("{", "("):
                shape = p.peek()
                body = (shape, p.group())
            p.eat(";")
            out.append((x, name, at, gen, body))
        elif x == "impl":
            p.next()
            p.generics()
            head = []
            while p.peek() not in ("{", ""):
                head.append(p.next())
            body = p.group()
            out.append(("impl", " ".join(head), at, [], body))
        elif x == "type" and re.match(r"[A-Za-z_]", p.peek(1)):
            p.next()
            name = p.next()
            p.generics()
            if p.eat("="):
                out.append(("type", name, at, [], p.type()))
        elif x == "mod" and p.peek(2) == "{":
            p.next()
            p.next()
            p.group()
        elif x == "{":
            p.group()
        else:
            p.next()
    return out


NUM = {"u8", "u16", "u32", "i8", "i16", "i32", "usize", "isize", "f32", "f64", "u64", "i64"}


def serde_ts(t, params, known):
    """What serde_wasm_bindgen makes of a type, in the words of tsify."""
    n, a = t
    if n in ("&", "Box", "Rc", "Arc", "Cow"):
        return serde_ts(a[-1], params, known)
    if n in params:
        return n
    if n in NUM:
        return "number"
    if n == "bool":
        return "boolean"
    if n in ("String", "str", "char"):
        return "string"
    if n in ("Vec", "slice", "VecDeque", "HashSet", "BTreeSet"):
        e = serde_ts(a[0], params, known)
        return "(%s)[]" % e if "|" in e else e + "[]"
    if n == "Option":
        return serde_ts(a[0], params, known) + " | undefined"
    if n in ("HashMap", "BTreeMap"):
        return "Map<%s, %s>" % (serde_ts(a[0], params, known), serde_ts(a[1], params, known))
    if n == "tuple":
        return "[%s]" % ", ".join(serde_ts(x, params, known) for x in a) if a else "null"
    if n in ("Range",):
        e = serde_ts(a[0], params, known)
        return "{ start: %s; end: %s }" % (e, e)
    if n in known:
        return n + ("<%s>" % ", ".join(serde_ts(x, params, known) for x in a) if a else "")
    raise Unsupported("type " + n)


def split(toks, sep=","):
    out, cur, depth = [], [], 0
    for t in toks:
        if t[0] in ("(", "[", "{", "<"):
            depth += 1
        elif t[0] in (")", "]", "}", ">"):
            depth -= 1
        if t[0] == sep and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def serde_attrs(at, allowed):
    out = {}
    for a in at:
        m = re.match(r"serde\s*\(\s*(.*)\)$", a)
        if not m:
            continue
        for part in m.group(1).split(","):
            k, _, v = part.partition("=")
            k, v = k.strip(), v.strip().strip('"')
            if k not in allowed:
                raise Unsupported("attribute serde(%s)" % k)
            out[k] = v
    return out


def cased(name, rule):
    if not rule:
        return name
    words = re.findall(r"[A-Z][a-z0-9]*|[a-z0-9]+", name)
    if rule == "camelCase":
        return words[0].lower() + "".join(w.title() for w in words[1:])
    if rule == "lowercase":
        return name.lower()
    if rule == "UPPERCASE":
        return name.upper()
    if rule == "snake_case":
        return "_".join(w.lower() for w in words)
    if rule == "kebab-case":
        return "-".join(w.lower() for w in words)
    if rule == "SCREAMING_SNAKE_CASE":
        return "_".join(w.upper() for w in words)
    if rule == "PascalCase":
        return "".join(w.title() for w in words)
    raise Unsupported("rename_all " + rule)


def fields(toks, gen, known, rule=None):
    out = []
    for f in split(toks):
        p = Parse(f)
        sa = serde_attrs(p.attrs(), ("rename", "skip", "default"))
        p.vis()
        name = p.next()
        p.want(":")
        t = p.type()
        if "skip" in sa:
            continue
        ty = serde_ts(t, gen, known)
        opt = t[0] == "Option" or "default" in sa
        out.append("%s%s: %s" % (json.dumps(sa.get("rename") or cased(name, rule)), "?" if opt else "", ty))
    return "{ " + "; ".join(out) + " }"


def positional(toks, gen, known):
    out = []
    for f in split(toks):
        p = Parse(f)
        p.attrs()
        p.vis()
        out.append(serde_ts(p.type(), gen, known))
    return out[0] if len(out) == 1 else "[" + ", ".join(out) + "]"


def shape(item, known):
    """the declaration of an item, without its name and those of its parameters"""
    kind, name, at, gen, body = item
    t = declare((kind, "Self_", at, gen, body), known)
    for i, g in enumerate(x for x in gen if not x.startswith("'")):
        t = re.sub(r"\b%s\b" % re.escape(g), "T%d_" % i, t)
    return t


def declare(item, known, shapes=None):
    kind, name, at, gen, body = item
    gen = [g for g in gen if not g.startswith("'")]
    g = "<%s>" % ", ".join(gen) if gen else ""
    sa = serde_attrs(at, ("rename_all", "transparent", "untagged", "deny_unknown_fields", "try_from", "from"))
    rule = sa.get("rename_all")
    for k in ("try_from", "from"):
        if k not in sa:
            continue
        # what is read is another type: the declaration is one type for both
        # directions, so that type has to have the shape of what is written
        other = (shapes or {}).get(sa[k].split("<")[0].split("::")[-1].strip())
        if other is None:
            raise Unsupported("read through %s, which was not found" % sa[k])
        plain = (kind, name, [a for a in at if not re.match(r"serde\s*\(\s*(try_)?from\b", a)], gen, body)
        if shape(other, known) != shape(plain, known):
            raise Unsupported("read through %s, which is shaped differently" % sa[k])
    if kind == "struct":
        if body is None:
            return "export type %s%s = null;" % (name, g)
        if body[0] == "(":
            return "export type %s%s = %s;" % (name, g, positional(body[1], gen, known))
        if "transparent" in sa:
            return "export type %s%s = %s;" % (name, g, re.sub(r'^\{ "\w+"\??: (.*) \}$', r"\1", fields(body[1], gen, known)))
        return "export interface %s%s %s" % (name, g, fields(body[1], gen, known, rule))
    alts = []
    for v in split(body[1]):
        p = Parse(v)
        va = serde_attrs(p.attrs(), ("rename", "skip"))
        n = p.next()
        tag = json.dumps(va.get("rename") or cased(n, rule))
        if "skip" in va:
            continue
        if p.peek() == "(":
            c = positional(p.group(), gen, known)
            alts.append(c if "untagged" in sa else "{ %s: %s }" % (tag, c))
        elif p.peek() == "{":
            c = fields(p.group(), gen, known)
            alts.append(c if "untagged" in sa else "{ %s: %s }" % (tag, c))
        else:
            alts.append("null" if "untagged" in sa else tag)
    return "export type %s%s = %s;" % (name, g, " | ".join(alts) or "never")


def param_ts(t, classes, known, ret=False):
    n, a = t
    if n == "&":
        return param_ts(a[0], classes, known, ret)
    if n == "Result":
        return param_ts(a[0], classes, known, True)
    if n == "Option":
        return param_ts(a[0], classes, known, ret) + " | undefined"
    if n == "JsValue":
        return "any"
    if n == "tuple" and not a:
        return "void"
    if n in ("u64", "i64"):
        return "bigint"
    if n in classes:
        return n
    return serde_ts(t, [], known)


def find_let(body, name):
    """The type a local variable is declared with."""
    for i, (x, _) in enumerate(body):
        if x == "let":
            p = Parse(body)
            p.i = i + 1
            p.eat("mut")
            if p.next() == name and p.eat(":"):
                return p.type()
    return None


def js_in(body, param):
    """What a JavaScript value is read as: `let x: T = serde_wasm_bindgen::from_value(param)`."""
    words = [x for x, _ in body]
    for i in range(len(words) - 3):
        if words[i] == "from_value" and words[i + 1] == "(" and words[i + 2] == param and words[i + 3] == ")":
            for j in range(i, -1, -1):
                if words[j] == "let":
                    p = Parse(body)
                    p.i = j + 1
                    p.eat("mut")
                    p.next()
                    return p.type() if p.eat(":") else None
                if words[j] in (";", "{", "}"):
                    break
            p = Parse(body)
            p.i = i
            if p.t[i - 1][0] == "::" or p.t[i + 1][0] == "::":
                return None
    return None


def js_out(body, returns):
    """What is written as a JavaScript value: `x.serialize(...)` of a variable with a type or of a call on the editor."""
    words = [x for x, _ in body]
    at = [i for i, x in enumerate(words) if x == "serialize" and words[i - 1] == "." and words[i + 1] == "("]
    if len(at) != 1:
        return None
    i = at[0] - 2
    if re.match(r"\w+$", words[i]):
        return find_let(body, words[i])
    if words[i] == ")":
        depth = 0
        while i >= 0:
            depth += (words[i] == ")") - (words[i] == "(")
            if depth == 0:
                break
            i -= 1
        return returns.get(words[i - 1]) if words[i - 2] == "." and words[i - 3] == "editor" else None
    return None


def editor_returns(every):
    out = {}
    for _, it in every:
        if it[0] != "impl" or it[1] != "MathEditor":
            continue
        p = Parse(it[4])
        while p.i < len(p.t):
            if p.next() != "fn":
                continue
            n = p.next()
            p.generics()
            if p.peek() != "(":
                continue
            p.group()
            out[n] = p.type() if p.eat("->") else ("tuple", [])
            if p.peek() == "{":
                p.group()
    return out


def methods(body, cls, classes, known, returns):
    """(declarations, {method: parameters})"""
    p = Parse(body)
    out, sig = [], {}
    while p.i < len(p.t):
        at = p.attrs()
        pub = p.vis()
        p.eat("async")
        if p.peek() != "fn":
            p.next()
            continue
        p.next()
        name = p.next()
        p.generics()
        params = p.group()
        ret = ("tuple", [])
        if p.eat("->"):
            ret = p.type()
        code = p.group() if p.peek() == "{" else []
        if not pub:
            continue
        wb = " ".join(a for a in at if a.startswith("wasm_bindgen"))
        js = re.search(r'js_name\s*=\s*"?(\w+)', wb)
        if "skip" in wb:
            continue
        if "getter" in wb or "setter" in wb:
            raise Unsupported("property " + name)
        ps, static = [], True
        for q in split(params):
            r = Parse(q)
            r.attrs()
            if [x for x, _ in q if x not in ("&", "mut")] == ["self"] or [x for x, _ in q][:1] == ["self"]:
                static = False
                continue
            r.eat("mut")
            n = r.next()
            r.want(":")
            t = r.type()
            if t[0] == "JsValue":
                t = js_in(code, n) or t
            ps.append((n, param_ts(t, classes, known), t[0] == "Option"))
        last = max([i for i, q in enumerate(ps) if not q[2]], default=-1)
        args = ", ".join("%s%s: %s" % (n, "?" if o and i > last else "", t) for i, (n, t, o) in enumerate(ps))
        if ret[0] == "JsValue" or ret[0] == "Result" and ret[1][0][0] == "JsValue":
            ret = js_out(code, returns) or ("JsValue", [])
        try:
            r = param_ts(ret, classes, known, True) if ret[0] != "Self" else cls
        except Unsupported:
            r = "any"
        if "constructor" in wb:
            out.append("  constructor(%s);" % args)
            sig["new"] = ps
        else:
            nm = js.group(1) if js else name
            out.append("  %s%s(%s): %s;" % ("static " if static else "", nm, args, r))
            sig[nm] = ps
    return out, sig


def interface():
    """(text of the declarations, {class: {method: parameters}}, problems)"""
    every, problems = [], []
    core = os.path.join(REPO, "aftermath-core")
    for d, dirs, fs in os.walk(core):
        dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "pkg", "node_modules", "benches"))
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                try:
                    every += [(os.path.relpath(p, REPO), i) for i in items(open(p).read())]
                except (SyntaxError, IndexError) as e:
                    problems.append("%s: %s" % (os.path.relpath(p, REPO), e))
    data = {i[1]: i for f, i in every if i[0] in ("struct", "enum") and any("Tsify" in a for a in i[2])}
    classes = {i[1] for f, i in every if i[0] in ("struct", "enum") and any("wasm_bindgen" in a and "Tsify" not in a and "tsify" not in a for a in i[2])}
    known = set(data)
    shapes = {i[1]: i for f, i in every if i[0] in ("struct", "enum")}
    out, sigs, returns = [], {}, editor_returns(every)
    for n in sorted(data):
        try:
            out.append(declare(data[n], known, shapes))
        except (Unsupported, SyntaxError, IndexError) as e:
            problems.append("%s: %s" % (n, e))
            out.append("export type %s = any;" % n)
    for n in sorted(classes):
        it = next(i for f, i in every if i[1] == n and i[0] in ("struct", "enum"))
        if it[0] == "enum":
            out.append("export enum %s { %s }" % (n, ", ".join(v[-1][0] if len(v) == 1 else v[0][0] for v in split(it[4][1]))))
            continue
        ds, sig = [], {}
        for f, i in every:
            if i[0] == "impl" and i[1] == n and any("wasm_bindgen" in a for a in i[2]):
                try:
                    d, s = methods(i[4], n, classes, known, returns)
                    ds += d
                    sig.update(s)
                except (Unsupported, SyntaxError, IndexError) as e:
                    problems.append("%s: %s" % (n, e))
                    ds.append("  [other: string]: any;")
        if not any("constructor(" in d for d in ds):
            ds.insert(0, "  private constructor();")
        # a class of the core is not replaceable by an object that merely looks like it
        out.append("export class %s {\n  private readonly __wbg_ptr_%s: number;\n  free(): void;\n%s\n}" % (n, n, "\n".join(ds)))
        sigs[n] = sig
    out.append("declare function init(module?: any): Promise<any>;\nexport default init;")
    return "\n".join(out) + "\n", sigs, problems, sorted(known), sorted(classes)


def check_types():
    text, sigs, problems, known, classes = interface()
    anytext = "\n".join(["export type %s%s = any;" % (n, "<T = any>" if "GridVec" == n else "") for n in known] + ["export const %s: any; export type %s = any;" % (c, c) for c in classes] + ["declare function init(module?: any): Promise<any>;\nexport default init;"])
    d = tempfile.mkdtemp(prefix="bindings-")
    try:
        job = {"repo": REPO, "dir": d, "interface": text, "unknown": anytext, "modes": sigs}
        jf, of = os.path.join(d, "job.json"), os.path.join(d, "out.json")
        with open(jf, "w") as f:
            json.dump(job, f)
        r = subprocess.run(["node", os.path.join(ROOT, "engine/ts/types.mjs"), jf, of], capture_output=True, text=True)
        if r.returncode or not os.path.exists(of):
            raise RuntimeError("type checker: " + (r.stderr or r.stdout)[-2000:])
        with open(of) as f:
            out = json.load(f)
    finally:
        shutil.rmtree(d)
    out["problems"] = problems
    out["known"], out["classes"] = known, classes
    out["methods"] = sum(len(s) for s in sigs.values())
    return out


# ---- options that exist but are not implemented ----------------------------------------------------
# how the bindings' methods hand an option on: found by the bodies in web/src calling the editor's method of the same name
def unimplemented(modes):
    """{mode: where} of the movement modes that end in a panic wherever the caret is; {editor method: it reaches the movement}."""
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(1) as pool:
        return pool.apply(_unimplemented, (sorted(modes),))


def _unimplemented(modes):
    import dump
    from engine import explore as ex
    from engine.prog import Prog
    from engine.values import Panic, Unknown, Missing
    from .base import mk_struct, mk_variant, panics
    from .caret import row_at_depth, row_len, focus_row, off_val
    path, _ = dump.dump_tolerant("caret_probe")
    prog = Prog(path)
    bad, und, root = {}, {}, "move_caret_range"
    for mode in modes:
        seen = {"panic": 0, "ok": 0}
        where = []

        def run(x):
            tys = x.argtys(root)
            _, f = row_at_depth(x, 0, "any")
            n, s = row_len(x, focus_row(x, f)), x.int("offset")
            x.assume(x.ge(n, s))
            oty = dict(x.prog.fields(tys[1]))["start"]
            r = mk_struct(x, tys[1], row_focus=f, start=off_val(x, oty, s), end=off_val(x, oty, s))
            d = mk_variant(x, tys[2], x.ctx.choose([v["name"] for v in x.prog.t(tys[2])["variants"]]))
            _, p = panics(x, root, x.ref(x.sym("settings", x.to(tys[0]))), r, d, mk_variant(x, tys[3], mode))
            seen["ok" if p is None else "panic"] += 1
            if p is not None:
                where.append(str(p.where))
        try:
            r = ex.explore(prog, mode, run, unroll=3, budget=40)
        except (Missing, Exception) as e:          # noqa: B014
            und[mode] = repr(e)[:200]
            continue
        if seen["panic"] and not seen["ok"] and not r.undecided:
            bad[mode] = where[0]
        elif not seen["ok"]:
            und[mode] = str(r.undecided)[:200]
    reach = {}
    names = {fid: f["name"] for fid, f in prog.fns.items()} if isinstance(prog.fns, dict) else dict(enumerate(f["name"] for f in prog.fns))
    target = target_fn(prog)
    for fid, n in names.items():
        m = re.search(r"(?:^|::)editor_(\w+)$", n)
        if m:
            reach[m.group(1)] = target is None or target in closure(prog, fid)
    return bad, und, reach


def direct(prog, fid):
    out = []
    body = prog.fns[fid].get("body")
    for bb in (body or {"blocks": []})["blocks"]:
        k = bb["terminator"]["kind"]
        if isinstance(k, dict) and "Call" in k:
            t = prog.t(bb["terminator"]["fty"]) if "fty" in bb["terminator"] else prog.t(k["Call"]["fty"])
            if t.get("inst") is not None:
                out.append(t["inst"])
    return out


def closure(prog, fid):
    seen, todo = set(), [fid]
    while todo:
        f = todo.pop()
        for g in direct(prog, f):
            if g not in seen:
                seen.add(g)
                todo.append(g)
    return seen


def target_fn(prog):
    for fid in (prog.fns if isinstance(prog.fns, dict) else range(len(prog.fns))):
        if re.search(r"(?:^|::)move_caret_range$", prog.fns[fid]["name"]) and prog.fns[fid]["crate"] == prog.crate:
            ds = direct(prog, fid)
            return ds[0] if len(ds) == 1 else None
    return None


def v02(tier):
    from . import registry
    try:
        out = check_types()
    except RuntimeError as e:
        return {"violations": [], "fatal": str(e), "coverage": {}, "results": []}
    viol, und = [], {}
    for d in out["diagnostics"]:
        viol.append({"obligation": "the front end agrees with the interface of the core", "text": "TS%d: %s" % (d["code"], d["text"]), "where": "%s:%s" % (d["file"], d["line"]), "instance": None,
                     "key": re.sub(r"\W+", "-", "%s-TS%d-%s" % (d["file"], d["code"], d["text"][:80])).strip("-")})
    for p in out["problems"]:
        und["interface: " + p] = {"not understood": 1}
    uses = [u for u in out["uses"] if re.match(r"MoveMode\b", u["type"])]
    modes = {l for u in uses for l in u["literals"]}
    checked = 0
    if modes:
        try:
            bad, u2, reach = unimplemented(modes)
        except subprocess.CalledProcessError as e:
            return {"violations": viol, "fatal": None if viol else "the analysed crate does not compile", "coverage": {}, "results": []}
        for m, why in u2.items():
            und["movement mode " + m] = {why: 1}
        for u in uses:
            for l in u["literals"]:
                checked += 1
                if l in bad and reach.get(u["method"], False):
                    viol.append({"obligation": "options the front end passes are implemented", "text": "%s(%s: %s) panics in the core: this movement mode is not implemented" % (u["method"], u["param"], l),
                                 "where": "%s:%s, %s" % (u["file"], u["line"], bad[l]), "instance": None, "key": re.sub(r"\W+", "-", "%s-%s-%s-not-implemented" % (u["file"], u["method"], l))})
    n = len(out["known"]) + len(out["classes"]) + out["calls"] + checked
    cov = {"explanation": registry.PROPERTIES["V02"]["explain"], "obligations": n + len(und), "discharged": n - len(viol), "functions": out["methods"], "functions_analysed": sorted("%s.%s" % (c, m) for c, ms in out["reached"].items() for m in ms),
           "call_sites": out["calls"], "types": out["known"], "classes": out["classes"], "files": out["files"], "option_literals": len(out["uses"]), "undecided": und, "internal_errors": [],
           "diagnostics_independent_of_the_core": len(out["others"])}
    rs = [{"name": "types of the core", "ok": len(out["known"]), "paths": 0, "undecided": {}}, {"name": "calls into the core", "ok": out["calls"], "paths": 0, "undecided": {}}]
    return {"violations": viol, "coverage": cov, "fatal": None, "results": rs}
