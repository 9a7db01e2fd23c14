"""P01: the printed form."""
from .base import *
from engine.values import Disp


def printed(x, root, v, opaque=()):
    """Segments a Display function writes; Displays of the types named in `opaque` stay symbolic."""
    def op(ty, val):
        n = x.prog.adt(ty) or ""
        return any(n.endswith("::" + o) for o in opaque)
    x.it.opaque_display = op
    f = x.ref(FmtV(()), True)
    r = x.run(root, x.ref(v) if not isinstance(v, Ref) else v, f)
    if not x.ctx.is_variant(r, "Ok"):
        x.fail("printing fails")
    return list(x.ctx.read(f).segs)


def pieces(x, segs):
    """Literal characters and symbolic parts of an output, one by one."""
    out = []
    for s in segs:
        if isinstance(s, Elem):
            v = s.cell.v
            if isinstance(v, P) and v.const() is not None:
                out.append(chr(v.const()))
            else:
                out.append(v)
        else:
            n = x.ctx.seg_len(s).const()
            if n is None:
                raise Unknown("printed text of unknown length")
            rest = [s]
            for _ in range(n):
                v, rest = x.ctx.front(rest)
                out.append(chr(v.const()) if isinstance(v, P) and v.const() is not None else v)
    return out


def escaped(x, chars):
    out = []
    for c in chars:
        if x.decide(x.eq(c, ord('"'))):
            out += ["\\", '"']
        elif x.decide(x.eq(c, ord("\\"))):
            out += ["\\", "\\"]
        else:
            out.append(c)
    return out


def same_text(x, got, want, what):
    def val(c):
        return P.c(ord(c)) if isinstance(c, str) else c
    if len(got) != len(want):
        x.fail("%s: %d parts instead of %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        x.need(val(g), val(w), what)


def escape_ob(n, symbol):
    def ob(x):
        root = "fmt_node" if symbol else "fmt_escaped"
        v = x.sym("v", x.to(x.argtys(root)[0]))
        if symbol:
            set_variant(x, v, "Symbol")
            s = x.ctx.field(v, 0, variant=x.prog.variant_index(v.ty, "Symbol"))
        else:
            s = v
        sv = x.ctx.vec(s)
        x.assume(x.eq(x.ctx.vlen(sv), n))
        chars = [x.ctx.index(sv, x.p(k)) for k in range(n)]
        want = escaped(x, chars)
        if symbol:
            want = ['"'] + want + ['"']
        got = pieces(x, printed(x, root, v))
        same_text(x, got, want, "the printed text of %d characters" % n)
    return ob


def parts_in_order(x, got, want, what):
    """The symbolic parts of an output are exactly `want`, each separated from the others by text."""
    ds = []
    for i, g in enumerate(got):
        if isinstance(g, str):
            continue
        if i and not isinstance(got[i - 1], str):
            x.fail(what + ": two parts printed without anything between them")
        ds.append(g)
    if len(ds) != len(want):
        x.fail("%s: %d parts printed instead of %d" % (what, len(ds), len(want)))
    for g, w in zip(ds, want):
        if not isinstance(g, Disp):
            raise Unknown("printed part %r" % (g,))
        if isinstance(w, P) != isinstance(g.v, P):
            x.fail(what + ": parts printed in another order")
        x.need(g.v, w, what)


def row_ob(n):
    def ob(x):
        v = x.sym("row", x.to(x.argtys("fmt_row")[0]))
        rv = row_vec(x, v)
        x.assume(x.eq(x.ctx.vlen(rv), n))
        got = pieces(x, printed(x, "fmt_row", v, ("InputNode",)))
        parts_in_order(x, got, [x.ctx.index(rv, x.p(k)) for k in range(n)], "the elements of a row")
        closed(x, got)
    return ob


def closed(x, got):
    if not got or got[0] != "(" or got[-1] != ")":
        x.fail("the printed form is not bracketed")


def grid_cells(x, v, n):
    cells, w = grid_parts(x, v)
    x.assume(x.eq(x.ctx.vlen(cells), n))
    return w, grid_rows(x, v), [x.ctx.index(cells, x.p(k)) for k in range(n)]


def number(x, v):
    """How a number shows up in an output: literally if it is known."""
    c = x.ctx.norm(v).const()
    return v if c is None else c


def node_ob(kind, n, root="fmt_node"):
    def ob(x):
        v = x.sym("v", x.to(x.argtys(root)[0]))
        g = v
        if root == "fmt_node":
            set_variant(x, v, "Container")
            vi = x.prog.variant_index(v.ty, "Container")
            for i, (nm, ty) in enumerate(x.prog.fields(v.ty, vi)):
                if x.prog.is_enum(ty):
                    set_variant(x, x.ctx.field(v, i, variant=vi), kind)
            g = node_grid(x, v)[0]
        w, h, cells = grid_cells(x, g, n)
        got = pieces(x, printed(x, root, v, ("InputRow",)))
        want = [w, h] + cells
        # numbers that are known are printed literally: leave them to the text comparison
        lit = [c for c in (number(x, w), number(x, h)) if isinstance(c, int)]
        text = "".join(c if isinstance(c, str) else "\0" for c in got)
        head = text.split("\0")[0] if len(lit) < 2 else text
        for c in lit:
            if str(c) not in text:
                x.fail("the size of a container is not printed")
        parts_in_order(x, got, [c for c in want if not isinstance(c, P) or not isinstance(number(x, c), int)], "size and cells of a container")
        if root == "fmt_node":
            closed(x, got)
    return ob


def kinds_ob(x):
    """Every kind prints differently."""
    root = "fmt_variant"
    ty = x.to(x.argtys(root)[0])
    names = {}
    for v in x.prog.t(ty)["variants"]:
        k = mk_variant(x, ty, v["name"])
        names[v["name"]] = "".join(str(c) for c in pieces(x, printed(x, root, k)))
    for a in names:
        for b in names:
            if a < b and names[a] == names[b]:
                x.fail("%s and %s are both printed as %s" % (a, b, names[a]))
            if not names[a]:
                x.fail("%s is printed as nothing" % a)


def kinds_node_ob(x):
    """The kind of a container is part of what is printed for it."""
    root = "fmt_node"
    v = x.sym("v", x.to(x.argtys(root)[0]))
    set_variant(x, v, "Container")
    vi = x.prog.variant_index(v.ty, "Container")
    g, gi, _ = node_grid(x, v)
    grid_cells(x, g, 0)
    outs = {}
    fs = x.prog.fields(v.ty, vi)
    (ki, kty), = [(i, ty) for i, (nm, ty) in enumerate(fs) if x.prog.is_enum(ty)]
    for k in x.prog.t(kty)["variants"]:
        n = Agg(v.ty, vi, [mk_variant(x, kty, k["name"]) if i == ki else x.ctx.field(v, i, variant=vi) for i in range(len(fs))])
        outs[k["name"]] = "".join(c if isinstance(c, str) else "\0" for c in pieces(x, printed(x, root, n, ("InputRow",))))
    for a in outs:
        for b in outs:
            if a < b and outs[a] == outs[b]:
                x.fail("%s and %s containers print alike" % (a, b))


def separated_ob(n):
    def ob(x):
        root = "fmt_separated"
        tys = x.argtys(root)
        v = x.sym("values", tys[0])
        vv = x.ctx.vec(v)
        x.assume(x.eq(x.ctx.vlen(vv), n))
        items = [x.ctx.index(vv, x.p(k)) for k in range(n)]
        f = x.ref(FmtV(()), True)
        sep = x.ref(x.it.string(", "))
        r = x.run(root, v, sep, f)
        if not x.ctx.is_variant(r, "Ok"):
            x.fail("printing fails")
        got = pieces(x, x.ctx.read(f).segs)
        want = []
        for i, e in enumerate(items):
            want += ([",", " "] if i else []) + [e]
        if len(got) != len(want):
            x.fail("list of %d values printed as %d parts" % (n, len(got)))
        for g, w in zip(got, want):
            if isinstance(w, str) != isinstance(g, str):
                x.fail("separator in the wrong place")
            if isinstance(w, str):
                if g != w:
                    x.fail("separator not printed as given")
            else:
                x.need(g.v if isinstance(g, Disp) else g, w, "a printed value")
    return ob


def p01(tier):
    m = 5 if tier == "thorough" else 3
    out = [Ob("escaping %d characters" % n, escape_ob(n, False), unroll=m + 2) for n in range(m + 1)]
    out += [Ob("symbol of %d characters" % n, escape_ob(n, True), unroll=m + 2) for n in range(m)]
    out += [Ob("row of %d elements" % n, row_ob(n), unroll=m + 2) for n in range(m + 1)]
    for k in ("Fraction", "Root", "Sup", "Sub", "Table"):
        out += [Ob("%s with %d cells" % (k, n), node_ob(k, n), unroll=m + 2) for n in range(m + 1)]
    out += [Ob("kinds print differently", kinds_ob), Ob("containers of different kinds print differently", kinds_node_ob)]
    out += [Ob("list of %d values with separators" % n, separated_ob(n), unroll=m + 2) for n in range(m + 1)]
    return out
