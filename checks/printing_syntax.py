"""P02: the printed form of syntax trees."""
from .base import *
from engine.values import Disp
from .printing import printed, pieces, escaped
from .syntax import children_of, mk_range, path_of

NODE = "SyntaxNodeWithDisplay"


BYTES = {0: (), 1: (10,), 2: (255, 0), 3: (0, 10, 188)}


def text(s):
    return list(s)


def compare(x, got, want, what):
    """`got`: pieces of the output; `want`: characters, unknown characters and syntax nodes (Node)."""
    if len(got) != len(want):
        x.fail("%s: printed as %s" % (what, show(got)))
    for g, w in zip(got, want):
        if isinstance(w, str):
            w = P.c(ord(w))
        if isinstance(w, Node):
            if not isinstance(g, Disp):
                x.fail("%s: a part is missing: %s" % (what, show(got)))
            v = x.ctx.get(g.v, "node")
            x.need(deref(x, v), w.v, what)
        elif isinstance(g, Disp):
            if g.ty != "uint":
                x.fail("%s: printed as %s" % (what, show(got)))
            x.need(g.v, w, what)
        else:
            x.need(P.c(ord(g)) if isinstance(g, str) else g, w, what)


def show(got):
    return "".join(g if isinstance(g, str) else "*" for g in got)


class Node:
    def __init__(self, v):
        self.v = v


def syntax_node(x, children, value):
    """A syntax node with a registered name."""
    x.it.unroll, keep = 10 ** 6, x.it.unroll
    m = x.ref(x.run("map_new"), True)
    x.run("map_add", m, path_of(x, ("A", "Zero")))
    name = x.run("map_add", m, path_of(x, ("A", "One")))
    x.it.unroll = keep
    bt = x.argtys("syntax_node_build")
    vty = x.argtys("builder_set_value")[1]
    by = BYTES[value] if isinstance(value, int) else [value[0]]
    v = VecV([Elem(Cell(P.c(b))) for b in by], x.prog.t(vty)["args"][0])
    nty = x.to(x.argtys("syntax_node_range")[0])
    n = x.sym("node", nty)
    fs = [f for f, _ in x.prog.fields(nty)]
    vals = []
    for i, (f, t) in enumerate(x.prog.fields(nty)):
        vals.append(children if f == "children" else v if f == "value" else name if f == "name" else x.ctx.field(n, i))
    if not {"children", "value", "name"} <= set(fs):
        raise Missing("parts of a syntax node")
    return Agg(nty, 0, vals), m, by


def print_node(x, n, m):
    def op(ty, val):
        return (x.prog.adt(ty) or "").endswith("::" + NODE)
    x.it.opaque_display = op
    f = x.ref(FmtV(()), True)
    r = x.run("print_syntax", x.ref(n), m, f)
    if not x.ctx.is_variant(r, "Ok"):
        x.fail("printing fails")
    return pieces(x, list(x.ctx.read(f).segs))


def tail(by):
    return ([" "] if by else []) + list("".join("%02x" % b for b in by)) + [")"]


def children_ob(k, nb):
    def ob(x):
        nty = x.to(x.argtys("syntax_node_range")[0])
        kids = [x.sym("child%d" % i, nty) for i in range(k)]
        n, m, by = syntax_node(x, children_of(x, nty, kids), nb)
        want = text("(A::One")
        for c in kids:
            want += [" ", Node(c)]
        compare(x, print_node(x, n, m), want + tail(by), "a node with %d children and a value of %d bytes" % (k, len(by)))
    return ob


def rows_ob(k, nb):
    def ob(x):
        nty = x.to(x.argtys("syntax_node_range")[0])
        cty = dict(x.prog.fields(nty))["children"]
        vi = x.prog.variant_index(cty, "NewRows")
        if vi is None:
            raise Missing("syntax nodes with rows")
        g = x.sym("grid", x.prog.fields(cty, vi)[0][1])
        cells, w = grid_parts(x, g)
        x.assume(x.eq(x.ctx.vlen(cells), k))
        h = grid_rows(x, g)
        x.ctx.norm(h)
        n, m, by = syntax_node(x, Agg(cty, vi, (g,)), nb)
        got = print_node(x, n, m)
        want = text("(A::One")
        if k:
            want += [" "] + number(x, w) + ["x"] + number(x, h)
        for i in range(k):
            want += [" ", Node(x.ctx.index(cells, x.p(i)))]
        compare(x, got, want + tail(by), "a node with %d rows and a value of %d bytes" % (k, len(by)))
    return ob


def number(x, v):
    c = x.ctx.norm(v).const()
    return [v] if c is None else list(str(c))


def leaf_symbols(x, l, lens):
    sv = x.ctx.vec(x.ctx.get(l, "symbols"))
    x.assume(x.eq(x.ctx.vlen(sv), len(lens)))
    out = []
    for i, n in enumerate(lens):
        s = x.ctx.vec(x.ctx.index(sv, x.p(i)))
        x.assume(x.eq(x.ctx.vlen(s), n))
        out += [x.ctx.index(s, x.p(k)) for k in range(n)]
    return out


def leaf_ob(lens, nb=None):
    """A leaf of symbols of some lengths, alone or in its node."""
    def ob(x):
        lty = x.to(x.argtys("print_leaf")[0])
        l = x.sym("leaf", lty)
        chars = leaf_symbols(x, l, lens)
        want = ['"'] + escaped(x, chars) + ['"']
        if nb is None:
            compare(x, pieces(x, printed(x, "print_leaf", l)), want, "a leaf")
            return
        nty = x.to(x.argtys("syntax_node_range")[0])
        cty = dict(x.prog.fields(nty))["children"]
        vi = x.prog.variant_index(cty, "Leaf")
        if vi is None:
            raise Missing("leaves")
        n, m, by = syntax_node(x, Agg(cty, vi, (l,)), nb)
        compare(x, print_node(x, n, m), text("(A::One ") + want + tail(by), "a node with a leaf")
    return ob


def path_ob(lens):
    def ob(x):
        v = x.sym("path", x.to(x.argtys("print_path")[0]))
        fs = x.prog.fields(v.ty)
        pv = x.ctx.vec(x.ctx.field(v, 0))
        if len(fs) != 1:
            raise Unknown("representation of a path")
        x.assume(x.eq(x.ctx.vlen(pv), len(lens)))
        want = []
        for i, n in enumerate(lens):
            s = x.ctx.vec(x.ctx.index(pv, x.p(i)))
            x.assume(x.eq(x.ctx.vlen(s), n))
            want += ([":", ":"] if i else []) + [x.ctx.index(s, x.p(k)) for k in range(n)]
        compare(x, pieces(x, printed(x, "print_path", v)), want, "a name")
    return ob


def p02(tier):
    m = 4 if tier == "thorough" else 3
    out = [Ob("%d children, %d bytes" % (k, b), children_ob(k, b), unroll=m + 2) for k in range(m + 1) for b in (0, 1, 3)]
    out += [Ob("a value of the byte %d" % b, children_ob(0, (b,))) for b in range(256)]
    out += [Ob("%d rows, %d bytes" % (k, b), rows_ob(k, b), unroll=m + 2) for k in range(m + 1) for b in (0, 2)]
    shapes = [(1,), (2,), (1, 1), (1, 2), (1, 1, 1)] + ([(3,), (2, 2)] if tier == "thorough" else [])
    out += [Ob("leaf of symbols of lengths %s" % (s,), leaf_ob(s), unroll=m + 3) for s in shapes]
    out += [Ob("node with a leaf of lengths %s, %d bytes" % (s, b), leaf_ob(s, b), unroll=m + 3) for s in shapes[:3] for b in (0, 1)]
    out += [Ob("name of parts of lengths %s" % (s,), path_ob(s), unroll=m + 3) for s in ((1, 1), (2, 1), (1, 2, 1))]
    return out
