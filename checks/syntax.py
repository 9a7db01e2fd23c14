"""X01, X03, X04, X06, X07: syntax nodes, their names, and whole rows parsed with the built-in and standard rules."""
from .base import *
from engine.models import text_of

MODULES = {}        # (program, entry point) -> (parser, modules); building a parser involves no input
NODE = "SyntaxNode"


class Parser:
    """A parser of the tree under analysis, and readers of its syntax trees."""

    def __init__(self, x, which):
        self.x = x
        x.it.maxsteps = 10 ** 7
        key = (id(x.prog), which)
        if key not in MODULES:
            mark = len(x.ctx.trace)
            x.it.unroll, keep = 10 ** 6, x.it.unroll
            v = x.run(which)
            x.it.unroll = keep
            if len(x.ctx.trace) != mark:
                raise Unknown("building the parser depends on unknowns")
            MODULES[key] = (x.ctx.field(v, 0), x.ctx.field(v, 1))
        self.parser, self.modules = MODULES[key]
        self.ety = x.prog.t(x.to(x.argtys("parse_row")[1]))["elem"]
        self.names = {}

    def symbol(self, s):
        """A symbol token; s is a string or a list of characters of the input."""
        v = self.x.it.string(s) if isinstance(s, str) else VecV([Elem(Cell(c)) for c in s], self.x.prog.char)
        return mk_variant(self.x, self.ety, "Symbol", v)

    def container(self, kind, cells, width):
        x = self.x
        vi = x.prog.variant_index(self.ety, "Container")
        if vi is None:
            raise Missing("containers")
        vals = []
        for n, t in x.prog.fields(self.ety, vi):
            if (x.prog.adt(t) or "").endswith("::GridVec"):
                c, w = TreeHooks.grid_shape(None, x.ctx, t)
                fs = x.prog.fields(t)
                rty = x.prog.t(fs[c][1])["args"][0]
                rows = [Elem(Cell(self.row(rty, r))) for r in cells]
                g = [None, None]
                g[c], g[w] = VecV(rows, rty), P.c(width)
                vals.append(Agg(t, 0, g))
            else:
                vals.append(kind if not isinstance(kind, str) else mk_variant(x, t, kind))
        return Agg(self.ety, vi, vals)

    def row(self, rty, toks):
        x = self.x
        fs = x.prog.fields(rty)
        if len(fs) != 1:
            raise Unknown("representation of a row")
        return Agg(rty, 0, (VecV([Elem(Cell(t)) for t in toks], self.ety),))

    def parse(self, toks):
        x = self.x
        sl = Ref(Cell(VecV([Elem(Cell(t)) for t in toks], self.ety)), (), (ZERO, P.c(len(toks))))
        return x.run("parse_row", x.ref(self.parser), sl)

    def name(self, n):
        x = self.x
        i = x.ctx.get(n, "name")
        k = repr(i)
        if k not in self.names:
            p = option(x, x.run("name_of", x.ref(self.modules), i))
            if p is None:
                x.fail("the name of a syntax node is not registered")
            segs = only_vec(x, deref(x, p)).segs
            self.names[k] = "::".join(text_of(x.it, s.cell.v) for s in segs)
        return self.names[k]

    def children(self, n):
        """("children", nodes), ("rows", nodes) or ("leaf", symbols)."""
        x = self.x
        ch = x.ctx.get(n, "children")
        if x.ctx.is_variant(ch, "Children"):
            return "children", self.elems(x.ctx.vec(x.ctx.vget(ch, "Children", "0")))
        if x.ctx.is_variant(ch, "Leaf"):
            return "leaf", self.elems(x.ctx.vec(x.ctx.get(x.ctx.vget(ch, "Leaf", "0"), "symbols")))
        cells, w = grid_parts(x, x.ctx.vget(ch, "NewRows", "0"))
        self.width = w
        return "rows", self.elems(cells)

    def elems(self, v):
        n = self.x.ctx.norm(self.x.ctx.vlen(v)).const()
        if n is None:
            raise Unknown("syntax node with an unknown number of children")
        return [self.x.ctx.index(v, P.c(i)) for i in range(n)]

    def range(self, n):
        x = self.x
        r = x.run("syntax_node_range", x.ref(n))
        return x.ctx.get(r, "start"), x.ctx.get(r, "end")

    def shape(self, n):
        """Readable form of a tree with constant names."""
        kind, sub = self.children(n)
        if kind == "leaf":
            return (self.name(n),) + tuple(text_of(self.x.it, s) if text_of(self.x.it, s) is not None else "?" for s in sub)
        return (self.name(n),) + tuple(self.shape(c) for c in sub)


# ---- X03 -------------------------------------------------------------------------------------------
def arbitrary_node(x, name, ty):
    n = x.sym(name, ty)
    r = x.run("syntax_node_range", x.ref(n))
    s, e = x.ctx.get(r, "start"), x.ctx.get(r, "end")
    x.assume(x.ge(e, s))
    return n, s, e


def mk_range(x, ty, s, e):
    return mk_struct(x, ty, start=s, end=e)


def children_of(x, ty, nodes):
    cty = dict(x.prog.fields(ty))["children"]
    vi = x.prog.variant_index(cty, "Children")
    if vi is None:
        raise Missing("kinds of syntax nodes")
    return Agg(cty, vi, (VecV([Elem(Cell(n)) for n in nodes], ty),))


def need_node(x, got, name, s, e, children, what, value=None):
    x.need(x.ctx.get(got, "name"), name, "the name of " + what)
    r = x.run("syntax_node_range", x.ref(got))
    x.need(x.ctx.get(r, "start"), s, "where %s starts" % what)
    x.need(x.ctx.get(r, "end"), e, "where %s ends" % what)
    x.need(x.ctx.get(got, "children"), children, "the children of " + what)
    v = x.ctx.vec(x.ctx.get(got, "value"))
    x.need(v, VecV((), v.ety) if value is None else value, "the value of " + what)


def node_new_ob(root, k):
    """SyntaxNode::new / SyntaxNodeBuilder::build with k children on the same row."""
    def ob(x):
        tys = x.argtys(root)
        rty, nty = tys[2 if root == "syntax_node_build" else 1], x.to(x.argtys("syntax_node_range")[0])
        name = x.sym("name", tys[1 if root == "syntax_node_build" else 0])
        s, e = x.int("start"), x.int("end")
        kids = [arbitrary_node(x, "child%d" % i, nty) for i in range(k)]
        ch = children_of(x, nty, [n for n, _, _ in kids])
        keep = x.ctx.copyval(ch)
        value = None
        if root == "syntax_node_build":
            b = x.run("builder_new", ch)
            vty = x.argtys("builder_set_value")[1]
            value = x.sym("value", vty)
            b = x.run("builder_set_value", b, x.ctx.copyval(value))
            args = (b, name, mk_range(x, rty, s, e))
        else:
            args = (name, mk_range(x, rty, s, e), ch)
        fits = all(x.decide(x.eq(kids[i][2], kids[i + 1][1])) for i in range(k - 1))
        if fits and k:
            fits = x.decide(x.ge(kids[0][1], s)) and x.decide(x.ge(e, kids[-1][2]))
        got, p = panics(x, root, *args)
        if not fits:
            if p is None:
                x.fail("a syntax node whose children leave a gap or stick out can be built")
            return
        if p is not None:
            raise p
        need_node(x, got, name, s, e, keep, "the syntax node", value)
    return ob


def leaf_ob(x):
    tys = x.argtys("builder_leaf")
    symbols, kind = x.sym("symbols", tys[0]), x.sym("kind", tys[1])
    b = x.run("builder_leaf", x.ctx.copyval(symbols), kind)
    bt = x.argtys("syntax_node_build")
    name, s, e = x.sym("name", bt[1]), x.int("start"), x.int("end")
    got = x.run("syntax_node_build", b, name, mk_range(x, bt[2], s, e))
    ch = x.ctx.get(got, "children")
    if not x.ctx.is_variant(ch, "Leaf"):
        x.fail("a leaf is built as something else")
    l = x.ctx.vget(ch, "Leaf", "0")
    x.need(x.ctx.get(l, "symbols"), symbols, "the symbols of a leaf")
    x.need(x.ctx.get(l, "node_type"), kind, "the kind of a leaf")
    need_node(x, got, name, s, e, ch, "a leaf")


def rows_ob(x):
    nt = x.argtys("syntax_node_new")
    name, s, e = x.sym("name", nt[0]), x.int("start"), x.int("end")
    vi = x.prog.variant_index(nt[2], "NewRows")
    if vi is None:
        raise Missing("syntax nodes with rows")
    ch = Agg(nt[2], vi, (x.sym("grid", x.prog.fields(nt[2], vi)[0][1]),))
    got = x.run("syntax_node_new", name, mk_range(x, nt[1], s, e), x.ctx.copyval(ch))
    need_node(x, got, name, s, e, ch, "a syntax node with rows")


def operator_ob(root, order):
    """The builders of operator nodes; order: positions of the arguments (op, then operands) from left to right."""
    def ob(x):
        tys = x.argtys(root)
        nty = tys[1]
        b = x.sym("rule", x.to(tys[0]))
        parts = [arbitrary_node(x, n, nty) for n in ("op", "first", "second")[:len(tys) - 1]]
        left_to_right = [parts[i] for i in order]
        for p, q in zip(left_to_right, left_to_right[1:]):
            x.assume(x.eq(p[2], q[1]))
        keep = [x.ctx.copyval(p[0]) for p in left_to_right]
        got = x.run(root, x.ref(b), *[p[0] for p in parts])
        need_node(x, got, x.ctx.get(b, "name"), left_to_right[0][1], left_to_right[-1][2], children_of(x, nty, keep), "an operator node")
    return ob


def built_in(x):
    return x.ref(x.sym("rules", x.to(x.argtys("missing_token")[0])))


def missing_operator_ob(x):
    tys = x.argtys("missing_operator")
    b = built_in(x)
    l, r = arbitrary_node(x, "left", tys[2]), arbitrary_node(x, "right", tys[3])
    x.assume(x.eq(l[2], r[1]))
    keep = [x.ctx.copyval(l[0]), x.ctx.copyval(r[0])]
    got = x.run("missing_operator", b, mk_range(x, tys[1], l[1], r[2]), l[0], r[0])
    kids = x.ctx.vec(x.ctx.vget(x.ctx.get(got, "children"), "Children", "0")) if x.ctx.is_variant(x.ctx.get(got, "children"), "Children") else None
    if kids is None or x.ctx.norm(x.ctx.vlen(kids)).const() != 3:
        x.fail("the node for a missing operator does not have two operands and a gap")
    x.need(x.ctx.index(kids, ZERO), keep[0], "the left operand of a missing operator")
    x.need(x.ctx.index(kids, P.c(2)), keep[1], "the right operand of a missing operator")
    gap = x.run("missing_token", b, l[2])
    x.need(x.ctx.index(kids, ONE), gap, "the gap where the operator is missing")
    need_node(x, got, x.ctx.get(got, "name"), l[1], r[2], x.ctx.get(got, "children"), "the node for a missing operator")


def empty_node_ob(root, what):
    def ob(x):
        b, at = built_in(x), x.int("at")
        got = x.run(root, b, at)
        need_node(x, got, x.ctx.get(got, "name"), at, at, children_of(x, got.ty, []), what)
    return ob


def unknown_ob(x):
    tys = x.argtys("unknown_token")
    b, s, e = built_in(x), x.int("start"), x.int("end")
    ety = x.prog.t(x.to(tys[2]))["elem"]
    tok = x.sym("token", ety)
    set_variant(x, tok, "Symbol")
    got = x.run("unknown_token", b, mk_range(x, tys[1], s, e), Ref(Cell(VecV((Elem(Cell(tok)),), ety)), (), (ZERO, ONE)))
    ch = x.ctx.get(got, "children")
    if not x.ctx.is_variant(ch, "Leaf"):
        x.fail("an unknown token is not a leaf")
    sy = x.ctx.vec(x.ctx.get(x.ctx.vget(ch, "Leaf", "0"), "symbols"))
    x.need(sy, VecV((Elem(Cell(x.ctx.vget(tok, "Symbol", "0"))),), sy.ety), "the symbols of an unknown token")
    need_node(x, got, x.ctx.get(got, "name"), s, e, ch, "an unknown token")


def whitespaces_ob(before, after):
    def ob(x):
        tys = x.argtys("whitespaces_node")
        b = built_in(x)
        parts, opt = [], {}
        for nm, present in (("before", before), ("node", True), ("after", after)):
            if present:
                parts.append(arbitrary_node(x, nm, tys[2]))
            oty = tys[1]
            opt[nm] = mk_variant(x, oty, "Some", parts[-1][0]) if present else mk_variant(x, oty, "None")
        for p, q in zip(parts, parts[1:]):
            x.assume(x.eq(p[2], q[1]))
        keep = [x.ctx.copyval(p[0]) for p in parts]
        node = parts[1 if before else 0][0]
        s, e = parts[0][1], parts[-1][2]
        got = x.run("whitespaces_node", b, opt["before"], node, opt["after"], mk_range(x, tys[4], s, e))
        if not before and not after:
            x.need(got, keep[0], "a node without spaces around it")
            return
        need_node(x, got, x.ctx.get(got, "name"), s, e, children_of(x, tys[2], keep), "a node with spaces around it")
    return ob


def x03(tier):
    out = []
    for root in ("syntax_node_new", "syntax_node_build"):
        for k in range(6 if tier == "thorough" else 4):
            out.append(Ob("%s, %d children" % (root, k), node_new_ob(root, k), unroll=8))
    out += [Ob("a leaf", leaf_ob), Ob("a node with rows", rows_ob),
            Ob("infix operator node", operator_ob("infix_build", (1, 0, 2)), unroll=8),
            Ob("prefix operator node", operator_ob("prefix_build", (0, 1)), unroll=8),
            Ob("postfix operator node", operator_ob("postfix_build", (1, 0)), unroll=8),
            Ob("missing operator", missing_operator_ob, unroll=8), Ob("missing token", empty_node_ob("missing_token", "a missing token")),
            Ob("empty row", empty_node_ob("nothing_node", "an empty row")), Ob("unknown token", unknown_ob, unroll=8)]
    for b in (False, True):
        for a in (False, True):
            out.append(Ob("spaces %s" % {(0, 0): "nowhere", (1, 0): "before", (0, 1): "after", (1, 1): "around"}[b, a], whitespaces_ob(b, a), unroll=8))
    return out


# ---- X04 -------------------------------------------------------------------------------------------
NAMES = (("A", "One"), ("A", "Two"), ("B", "One"), ("A", "B", "One"))


def path_of(x, parts):
    vty = x.argtys("path_new")[0]
    sty = x.prog.t(vty)["args"][0]
    return x.run("path_new", VecV([Elem(Cell(x.it.string(p))) for p in parts], sty))


def names_ob(n, k):
    """n registrations of up to k different names in any order, then every lookup."""
    def ob(x):
        x.it.unroll = 10 ** 6
        m = x.ref(x.run("map_new"), True)
        seen = {}
        for step in range(n):
            w = x.ctx.choose(list(range(min(k, len(seen) + 1))))
            nm = list(seen)[w] if w < len(seen) else NAMES[len(seen)]
            got = x.run("map_add", m, path_of(x, nm))
            if nm in seen:
                x.need(got, seen[nm], "the id of a name registered again")
            else:
                for o, i in seen.items():
                    if x.ctx.diff(got, i) is None:
                        x.fail("two names with the same id")
                seen[nm] = got
            for o in NAMES[:k]:
                r = option(x, x.run("map_get", m, x.ref(path_of(x, o))))
                if (r is not None) != (o in seen):
                    x.fail("a name is known although it is not registered, or the other way round")
                if r is not None:
                    x.need(r, seen[o], "the id of a name")
            for o, i in seen.items():
                r = option(x, x.run("map_get_reverse", m, i))
                if r is None:
                    x.fail("an id without a name")
                x.need(r, path_of(x, o), "the name of an id")
    return ob


def x04(tier):
    n = 6 if tier == "thorough" else 4
    return [Ob("%d registrations of up to %d names" % (i, k), names_ob(i, k), budget=300) for i in range(1, n + 1) for k in range(1, min(i, 4) + 1)]


# ---- X01, X06, X07 ---------------------------------------------------------------------------------
class Any:
    """An arbitrary character between two code points."""

    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi


class Str(Any):
    """A symbol of n arbitrary characters."""

    def __init__(self, name, n):
        Any.__init__(self, name)
        self.n = n


class Box:
    """A container of a kind, with rows of tokens."""

    def __init__(self, kind, rows, width):
        self.kind, self.rows, self.width = kind, rows, width


def token(x, p, t):
    if isinstance(t, Box):
        return p.container(t.kind, [[token(x, p, u) for u in r] for r in t.rows], t.width)
    if isinstance(t, Str):
        return p.symbol([x.ctx.mk(x.prog.char, ("in", "%s.%d" % (t.name, i))) for i in range(t.n)])
    if isinstance(t, Any):
        c = x.ctx.mk(x.prog.char, ("in", t.name))
        if t.lo is not None:
            x.assume(x.ge(c, t.lo))
        if t.hi is not None:
            x.assume(x.ge(t.hi, c))
        return p.symbol([c])
    return p.symbol(t)


def need_tree(x, p, n, toks, vals, start, end, what):
    """The tree n covers exactly the tokens start..end, in order and without gaps."""
    s, e = p.range(n)
    x.need(s, P.c(start), "where a syntax node starts (%s)" % what)
    x.need(e, P.c(end), "where a syntax node ends (%s)" % what)
    name = p.name(n)
    kind, sub = p.children(n)
    if kind == "leaf":
        if any(isinstance(t, Box) for t in toks[start:end]):
            x.fail("a container became a symbol of %s (%s)" % (name, what))
        if len(sub) != end - start:
            x.fail("leaf %s covers %d tokens but has %d symbols (%s)" % (name, end - start, len(sub), what))
        for i, sy in enumerate(sub):
            x.need(sy, x.ctx.vget(vals[start + i], "Symbol", "0"), "a symbol of leaf %s (%s)" % (name, what))
    elif kind == "rows":
        t = toks[start] if end - start == 1 else None
        if not isinstance(t, Box):
            x.fail("syntax node %s with rows where there is no container (%s)" % (name, what))
        if len(sub) != len(t.rows):
            x.fail("syntax node %s has %d rows for a container with %d (%s)" % (name, len(sub), len(t.rows), what))
        x.need(p.width, P.c(t.width), "the width of the rows of %s (%s)" % (name, what))
        inner = x.ctx.expand(vals[start])
        grid = next(f for f in inner.fields if (x.prog.adt(f.ty) or "").endswith("::GridVec"))
        cells, _ = grid_parts(x, grid)
        for i, (r, m) in enumerate(zip(t.rows, sub)):
            rv = row_vec(x, x.ctx.index(cells, P.c(i)))
            need_tree(x, p, m, r, p.elems(rv), 0, len(r), what + ", row %d inside" % i)
    else:
        at = start
        for c in sub:
            cs, ce = p.range(c)
            k = x.ctx.norm(ce).const()
            if k is None:
                x.fail("a syntax node ends nowhere (%s)" % what)
            need_tree(x, p, c, toks, vals, at, k, what)
            at = k
        if at != end:
            x.fail("the children of %s end at %d, the node at %d (%s)" % (name, at, end, what))


def row_text(toks):
    return " ".join("<%s>" % ("?" * t.n) if isinstance(t, Str) else "?" if isinstance(t, Any) else "%s(%s)" % (t.kind, "; ".join(row_text(r) for r in t.rows)) if isinstance(t, Box) else
                    "␣" if t == " " else t for t in toks) or "(empty)"


def parse_ob(which, toks, then=None):
    """Parsing never panics and loses nothing; `then` looks at the tree."""
    def ob(x):
        p = Parser(x, which)
        vals = [token(x, p, t) for t in toks]
        n, pan = panics(x, "parse_row", x.ref(p.parser), Ref(Cell(VecV([Elem(Cell(t)) for t in vals], p.ety)), (), (ZERO, P.c(len(vals)))))
        if pan is not None:
            raise pan
        need_tree(x, p, n, toks, vals, 0, len(toks), "row `%s`" % row_text(toks))
        if then is not None:
            then(x, p, n, toks)
    return ob


def find(x, p, n, start):
    """The node with rows at position start."""
    kind, sub = p.children(n)
    if kind == "rows":
        return n if x.ctx.norm(p.range(n)[0]).const() == start else None
    if kind == "children":
        for c in sub:
            f = find(x, p, c, start)
            if f is not None:
                return f
    return None


def boxes(kinds):
    """Containers of every kind, with rows of every relevant content."""
    out = []
    for k in kinds:
        shapes = [([[]], 1), ([["a"]], 1), ([["a"], []], 1), ([[], ["a"]], 2), ([["a"], ["b"], ["c"], ["d"]], 2), ([["a"], ["b"], ["c"]], 3)]
        if k in ("Sup", "Sub"):
            shapes = shapes[:2]
        elif k in ("Fraction", "Root"):
            shapes = shapes[2:4]
        out += [Box(k, r, w) for r, w in shapes]
    return out


KINDS = ("Fraction", "Root", "Sup", "Sub", "Table")


def all_kinds_ob(which):
    """Every variant of the kind of containers (also ones added later) is parsed by a rule of its own."""
    def ob(x):
        p = Parser(x, which)
        vi = x.prog.variant_index(p.ety, "Container")
        if vi is None:
            raise Missing("containers")
        kty = next(t for n, t in x.prog.fields(p.ety, vi) if x.prog.t(t)["k"] == "adt" and len(x.prog.t(t)["variants"]) > 1)
        ks = [v["name"] for v in x.prog.t(kty)["variants"]]
        k = x.ctx.choose(ks)
        box = Box(k, [[]], 1)
        v = token(x, p, box)
        n, pan = panics(x, "parse_row", x.ref(p.parser), Ref(Cell(VecV([Elem(Cell(v))], p.ety)), (), (ZERO, ONE)))
        if pan is not None:
            raise pan
        f = find(x, p, n, 0)
        if f is None:
            x.fail("a container of kind %s is not parsed" % k)
        need_tree(x, p, n, [box], [v], 0, 1, "one %s" % k)
        nm = p.name(n if k in ("Sup", "Sub") else f)
        if nm != "BuiltIn::" + k:
            x.fail("a container of kind %s is called %s" % (k, nm))
    return ob


def need_named(kind_at):
    def then(x, p, n, toks):
        for i, k in kind_at:
            f = find(x, p, n, i)
            if f is None:
                x.fail("the %s in row `%s` is not parsed" % (k, row_text(toks)))
            nm = p.name(f)
            if k in ("Sup", "Sub"):
                if nm != "BuiltIn::Operator":
                    x.fail("the script in row `%s` is called %s" % (row_text(toks), nm))
                if not has_name(x, p, n, "BuiltIn::" + k):
                    x.fail("no %s in the tree of row `%s`" % (k, row_text(toks)))
            elif nm != "BuiltIn::" + k:
                x.fail("the %s in row `%s` is called %s" % (k, row_text(toks), nm))
    return then


def has_name(x, p, n, name):
    if p.name(n) == name:
        return True
    kind, sub = p.children(n)
    return kind != "leaf" and any(has_name(x, p, c, name) for c in sub)


def x01(tier):
    out = [Ob("%s, every kind of container" % w, all_kinds_ob(w), unroll=80, budget=300) for w in ("parser_built_in", "parser_standard")]
    around = [((), ()), (("a",), ()), ((), ("a",)), (("a",), ("b",)), ((" ",), (" ",)), (("+",), ())]
    if tier == "thorough":
        around += [(("a", " "), (" ", "b")), (("a", "+"), ()), (("-",), ("!",)), (("(",), (")",)), (("a", "+"), ("b",)), (("f", "("), (")",)), (("\"",), ("\"",)),
                   (("a", " ", "+"), (" ",)), (("(",), ()), ((), (")",)), (("!",), ("!",)), (("lim",), ()), (("l", "i", "m"), ("a",)), (("∑",), ("a",))]
    for k in KINDS:
        for w in ("parser_built_in", "parser_standard"):
            for before, after in around:
                for b in (boxes([k]) if not before and not after or tier == "thorough" else boxes([k])[:1]):
                    toks = list(before) + [b] + list(after)
                    out.append(Ob("%s: %s" % (w[7:], row_text(toks)), parse_ob(w, toks, need_named([(len(before), k)])), unroll=80, budget=300))
    for k in KINDS:
        for j in KINDS:
            outer = boxes([k])[0]
            inner = Box(k, [[boxes([j])[0]]] + outer.rows[1:], outer.width)
            out.append(Ob("%s in %s" % (j, k), parse_ob("parser_standard", [inner], None), unroll=80, budget=300))
            out.append(Ob("%s next to %s" % (j, k), parse_ob("parser_standard", [boxes([j])[0], boxes([k])[0]], None), unroll=80, budget=300))
    return out


LEVELS = ({"=": "Comparison::Equals", "<": "Comparison::LessThan", ">": "Comparison::GreaterThan", "≤": "Comparison::LessThanOrEquals", "≥": "Comparison::GreaterThanOrEquals"},
          {"+": "Arithmetic::Add", "-": "Arithmetic::Subtract"}, {"*": "Arithmetic::Multiply", "/": "Arithmetic::Divide"})
LOGIC = {"∧": "Logic::And", "∨": "Logic::Or", "⇔": "Logic::Equivalent", "⟹": "Logic::Implies"}
NAME = {o: n for l in LEVELS for o, n in l.items()}
NAME.update(LOGIC)
NAME[","] = "Collections::Tuple"
SIGN = {"+": "Arithmetic::Add", "-": "Arithmetic::Subtract", "¬": "Logic::Not", "∑": "Calculus::Sum", "∫": "Calculus::Integral"}
VAR = "Core::Variable"
OP = "BuiltIn::Operator"


def level(o):
    return next((i for i, l in enumerate(LEVELS) if o in l), None)


def ident(name):
    """An arbitrary one-letter identifier without a meaning of its own."""
    return Any(name, ord("a"), ord("h"))


def infix(o, l, r):
    return (NAME[o], l, OP, r)


def bare(x, p, n, space):
    """Names of a tree without the nodes for spaces."""
    nm = p.name(n)
    kind, sub = p.children(n)
    if nm == "BuiltIn::Whitespaces":
        kids = [c for c in sub if p.name(c) != "BuiltIn::Whitespace"]
        if len(kids) != 1 or not space:
            x.fail("a node for spaces around %d things" % len(kids))
        return bare(x, p, kids[0], space)
    if kind == "leaf":
        return nm
    return (nm,) + tuple(bare(x, p, c, space) for c in sub)


def meaning_ob(cases, space=False):
    """cases: (tokens, expected names)."""
    def ob(x):
        toks, want = x.ctx.choose(cases)
        if space:
            toks = [t for u in toks for t in ((u, " ") if not isinstance(u, Box) else (u,))]

        def then(x, p, n, toks):
            got = bare(x, p, n, space)
            if got != want:
                x.fail("row `%s` means %s instead of %s" % (row_text(toks), show(got), show(want)))
        parse_ob("parser_standard", toks, then)(x)
    return ob


def show(t):
    return t if isinstance(t, str) else "(%s)" % " ".join(show(c) for c in t)


def x06(tier):
    a, b, c, d = (ident(n) for n in "abcd")
    out = []

    def add(name, cases, **kw):
        out.append(Ob(name, meaning_ob(cases, **kw), unroll=200, budget=400))
        if tier == "thorough" and not kw:
            out.append(Ob(name + ", with spaces", meaning_ob(cases, space=True), unroll=200, budget=700))

    arith = list(LEVELS[1]) + list(LEVELS[2])
    infixes = [o for l in LEVELS for o in l]
    for o in infixes:
        right = [q for q in infixes if level(q) > level(o)]
        cases = []
        for q in right:
            cases.append(([a, o, b, q, c], infix(o, VAR, infix(q, VAR, VAR))))
            cases.append(([a, q, b, o, c], infix(o, infix(q, VAR, VAR), VAR)))
        if o in arith:
            cases += [([a, o, b, q, c], infix(q, infix(o, VAR, VAR), VAR)) for q in LEVELS[level(o)]]
        else:
            cases.append(([a, o, b, o, c], infix(o, infix(o, VAR, VAR), VAR)))
        for i in range(0, len(cases), 5):
            add("%s and other operators %d" % (o, i // 5), cases[i:i + 5])
    add("conjunctions", [([a, o, b, o, c], infix(o, infix(o, VAR, VAR), VAR)) for o in LOGIC])
    add("lists", [([a, ",", b, ",", c], infix(",", infix(",", VAR, VAR), VAR))] + [([a, o, b, ",", c], infix(",", infix(o, VAR, VAR), VAR)) for o in arith]
        + [([a, ",", b, o, c], infix(",", VAR, infix(o, VAR, VAR))) for o in arith])
    fact = lambda v: ("Arithmetic::Factorial", v, OP)
    sign = lambda s, v: (SIGN[s], OP, v)
    sup = Box("Sup", [[ident("s")]], 1)
    sub = Box("Sub", [[ident("t")]], 1)
    powr = lambda v, k="Sup": ("BuiltIn::" + k, v, (OP, VAR))
    for s in ("+", "-"):
        add("sign %s in front" % s, [([s, a], sign(s, VAR)), ([s, a, "!"], sign(s, fact(VAR))), ([s, a, sup], sign(s, powr(VAR))), ([s, a, sub], sign(s, powr(VAR, "Sub")))]
            + [([s, a, o, b], infix(o, sign(s, VAR), VAR)) for o in infixes])
        add("sign %s after an operator" % s, [([a, o, s, b], infix(o, VAR, sign(s, VAR))) for o in infixes])
        add("signs %s" % s, [([s, t, a], sign(s, sign(t, VAR))) for t in ("+", "-")])
    add("factorials", [([a, "!"], fact(VAR)), ([a, "!", "!"], fact(fact(VAR))), ([a, sup, "!"], fact(powr(VAR)))]
        + [([a, o, b, "!"], infix(o, VAR, fact(VAR))) for o in infixes] + [([a, "!", o, b], infix(o, fact(VAR), VAR)) for o in infixes])
    add("scripts", [([a, sup], powr(VAR)), ([a, sub], powr(VAR, "Sub")), ([a, sub, sup], powr(powr(VAR, "Sub"))), ([a, sup, sub], powr(powr(VAR), "Sub"))]
        + [([a, o, b, sup], infix(o, VAR, powr(VAR))) for o in infixes] + [([a, sup, o, b], infix(o, powr(VAR), VAR)) for o in infixes])
    group = lambda v: ("Core::RoundBrackets", OP, v, OP)
    add("brackets", [(["(", a, ")"], group(VAR)), (["(", a, ")", "!"], fact(group(VAR))), (["-", "(", a, ")"], sign("-", group(VAR))), (["(", a, ")", sup], powr(group(VAR)))])
    add("brackets on the right", [([a, "*", "(", b, "+", c, ")"], infix("*", VAR, group(infix("+", VAR, VAR)))), ([a, "+", "(", b, "-", c, ")"], infix("+", VAR, group(infix("-", VAR, VAR))))])
    add("brackets on the left", [(["(", a, "+", b, ")", "*", c], infix("*", group(infix("+", VAR, VAR)), VAR)), (["(", a, ",", b, ")"], group(infix(",", VAR, VAR)))])
    call = lambda f, v: ("Function::FunctionApplication", f, (OP, OP, v, OP))
    add("calls", [([a, "(", b, ")"], call(VAR, VAR)), ([a, "(", ")"], ("Function::FunctionApplication", VAR, (OP, OP, OP))), (["-", a, "(", b, ")"], sign("-", call(VAR, VAR))),
                  ([a, "(", b, ")", "!"], fact(call(VAR, VAR))), ([a, "+", b, "(", c, ")"], infix("+", VAR, call(VAR, VAR)))])
    add("calls with operators inside", [([a, "(", b, "+", c, ")"], call(VAR, infix("+", VAR, VAR))), ([a, "(", b, ",", c, ")"], call(VAR, infix(",", VAR, VAR)))])
    num = lambda n: Any(n, ord("0"), ord("9"))
    NUM = "Arithmetic::Number"
    add("numbers", [([num("a")], NUM), ([num("a"), num("b"), num("c")], NUM), ([num("a"), ".", num("b")], NUM), ([num("a"), num("b"), ".", num("c"), num("d")], NUM),
                    ([num("a"), "+", num("b")], infix("+", NUM, NUM)), (["-", num("a")], sign("-", NUM))])
    add("identifiers", [([a, b], VAR), ([a, b, c], VAR), ([a, num("n"), b], VAR)])
    add("constants", [(["∞"], "Calculus::Infinity"), (["⊤"], "Logic::True"), (["⊥"], "Logic::False"), (["\"", Any("q", 0x28, 0x5b), "\""], "String::String")])
    add("large operators", [([s, a], sign(s, VAR)) for s in ("∑", "∫", "¬")] + [(list("lim") + [a], ("Calculus::Lim", OP, VAR)), (list("limsup") + [a], ("Calculus::LimSup", OP, VAR)), (list("liminf") + [a], ("Calculus::LimInf", OP, VAR))])
    add("scripts of operators", [([s, t, a], (SIGN[s], ("BuiltIn::" + t.kind, OP, (OP, VAR)), VAR)) for s in ("∑", "∫") for t in (sub, sup)]
        + [(["∑", sub, sup, a], (SIGN["∑"], ("BuiltIn::Sup", ("BuiltIn::Sub", OP, (OP, VAR)), (OP, VAR)), VAR))])
    if tier != "thorough":
        add("with spaces", [([a, "+", b, "*", c], infix("+", VAR, infix("*", VAR, VAR))), (["-", a, "+", b], infix("+", sign("-", VAR), VAR)), ([a, "!", "=", b], infix("=", fact(VAR), VAR)), (["(", a, ")"], group(VAR))], space=True)
    return out


# ---- X07 -------------------------------------------------------------------------------------------
RANGES = [(0, 0x1f), (0x20, 0x21), (0x22, 0x27), (0x28, 0x29), (0x2a, 0x2b), (0x2c, 0x2d), (0x2e, 0x2f), (0x30, 0x39), (0x3a, 0x3c), (0x3d, 0x3e), (0x3f, 0x5d), (0x5e, 0x60), (0x61, 0x7a),
          (0x7b, 0x2210), (0x2211, 0x221e), (0x221f, 0x2228), (0x2229, 0x2264), (0x2265, 0x22a5), (0x22a6, 0x27f8), (0x27f9, 0x10ffff)]


def x07(tier):
    out = [Ob("no token", parse_ob("parser_standard", []), unroll=200)]
    big = {"unroll": 200, "budget": 780 if tier == "thorough" else 300, "max_paths": 10 ** 6}

    def add(*toks, names=("parser_standard",)):
        for w in names:
            out.append(Ob("%s: %s" % (w[7:], " ".join("[%x-%x]" % (t.lo, t.hi) if isinstance(t, Any) and t.lo is not None else row_text([t]) for t in toks)), parse_ob(w, list(toks)), **big))

    add(Any("t0"), names=("parser_built_in", "parser_standard"))
    add(Any("t0"), Any("t1"), names=("parser_built_in",))
    for lo, hi in RANGES:
        add(Any("t0", lo, hi), Any("t1"))
    t = Any("t")
    for row in (["(", t, ")"], ["(", t], ["(", "(", t], [t, ")"], ["\"", t, "\""], ["\"", t], ["\"", "\\", t], ["\"", "\\", t, "\""], ["\"", "\\", "n", t, "\""], ["\"", t, "\\", "\\"], [" ", t, " "], ["1", ".", t], ["l", "i", t], ["l", "i", "m", t], ["l", "i", "m", "s", "u", t],
                ["a", "+", t], [t, "+", "a"], ["a", t, "b"], ["-", t, "a"], ["a", "!", t], ["a", "(", t, ")"], ["a", "(", t], ["(", ")", t], ["∑", t, "a"]):
        add(*row)
    two = Str("s", 2)
    for row in ([Str("s", 0)], [two], ["(", two, ")"], ["\"", two, "\""], ["a", two, "b"], ["1", two], ["-", two]):
        add(*row)
    for k in KINDS:
        bx = boxes([k])[0]
        add(bx, t)
        add(t, bx)
        add(Box(k, [[t]] + bx.rows[1:], bx.width))
        if tier == "thorough":
            add("(", bx, t)
            add(t, bx, t)
    if tier == "thorough":
        for k in ("a", "+", "-", "(", ")", "!", ",", " ", "\"", ".", "1", "l", "∑"):
            for lo, hi in RANGES:
                add(k, Any("t0", lo, hi), Any("t1"))
    return out
