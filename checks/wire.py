"""W01: writing a value and reading it again gives the same value (formulas, places, selections).  The part of G02 about
data read from outside."""
import re
from .base import *

SIMPLE = [("round_variant", "a kind of container"), ("round_offset", "an offset"), ("round_row_index", "a step of a path"),
          ("round_rectangle", "a rectangle of cells"), ("round_index2d", "a cell's coordinates"),
          ("round_direction", "a direction"), ("round_horizontal", "a horizontal direction"), ("round_vertical", "a vertical direction"),
          ("round_data_type", "a format of the clipboard"), ("round_move_mode", "a unit of movement")]
PATHS = [("round_row_indices", "the path of a row", ()), ("round_element_indices", "the path of an element", ("row_indices",)),
         ("round_position", "a place in a row", ("row_indices",)), ("round_range", "a selection in a row", ("row_indices",)),
         ("round_grid_range", "a selection of cells", ("row_indices",))]


class WireHooks(TreeHooks):
    """In addition: numbers in memory fit their type."""

    def atom(self, ctx, a, key):
        super().atom(ctx, a, key)
        if key[0] == "int":
            ctx.add_ge(P.c(2 ** 64 - 1) - P.a(a))


def back(x, root, v):
    """The value read from what was written for v."""
    got = option(x, x.run(root, x.ref(v)))
    if got is None:
        x.fail("what was written can be read")
    x.need(got, v, "the value read back")


def simple_ob(root):
    def run(x):
        back(x, root, x.sym("value", x.to(x.argtys(root)[0])))
    return run


def upto(x, v, n):
    """The vector has exactly n elements."""
    x.assume(x.eq(x.ctx.vlen(v), n))


def path_ob(root, inner, n):
    def run(x):
        v = x.sym("value", x.to(x.argtys(root)[0]))
        p = v
        for f in inner:
            if f not in [g[0] for g in x.prog.fields(p.ty)]:
                raise Missing("field `%s` of %s" % (f, x.prog.text(p.ty)))
            p = x.ctx.get(p, f)
        upto(x, only_vec(x, p), n)
        back(x, root, v)
    return run


def by_induction(x, ty):
    """Writing and reading a value of this type deeper inside is taken to work (the obligations about it decide that)."""
    kept = {}
    pat = re.compile(r"(?:Serialize for %s>|<%s as .*Serialize>)::serialize::<" % (re.escape(ty), re.escape(ty)))
    tap = re.compile(r"(?:Deserialize<[^>]*> for %s>|<%s as .*Deserialize<[^>]*>>)::deserialize::<" % (re.escape(ty), re.escape(ty)))
    fs = [f for f in x.prog.fns if f and "{closure" not in f["name"] and "wire::W" in f["name"] and pat.search(f["name"])]
    gs = [f for f in x.prog.fns if f and "{closure" not in f["name"] and "wire::R" in f["name"] and tap.search(f["name"])]
    if len(fs) != 1 or len(gs) != 1:
        raise Unknown("how %s is written and read" % ty)

    def write(it, args, call):
        k = "wire%d" % len(kept)
        vty = next(f[1] for f in x.prog.fields(call.rty, 0))
        kept[k] = x.ctx.read(it.deref(args[0]))
        return mk_variant(x, call.rty, "Ok", x.sym(k, vty))

    def read(it, args, call):
        v = x.ctx.field(args[0], 0)
        if not isinstance(v, Sym) or v.term[0] != "in" or v.term[1] not in kept:
            raise Unknown("reading something that was not written as a " + ty)
        return mk_variant(x, call.rty, "Ok", kept[v.term[1]])
    x.it.opaque[fs[0]["id"]] = write
    x.it.opaque[gs[0]["id"]] = read


NODE, ROW = "input_tree::node::InputNode", "input_tree::row::InputRow"


def row_ob(n):
    def run(x):
        by_induction(x, NODE)
        row = x.sym("row", x.to(x.argtys("round_row")[0]))
        upto(x, row_vec(x, row), n)
        back(x, "round_row", row)
    return run


def nodes_ob(n):
    def run(x):
        by_induction(x, NODE)
        v = x.sym("nodes", x.to(x.argtys("round_nodes")[0]))
        upto(x, x.ctx.vec(v), n)
        back(x, "round_nodes", v)
    return run


def clipboard_ob(n):
    def run(x):
        by_induction(x, NODE)
        enc, dec = x.prog.fns[x.root("wire_encode")], x.prog.fns[x.root("wire_decode")]
        calls = {f["name"]: f["id"] for f in x.prog.fns if f}
        if not {"serde_json::encode", "serde_json::decode"} <= set(calls):
            raise Missing("the text format")
        texts = []

        def encode(it, args, call):
            texts.append(args[0])
            return x.it.string("text%d" % len(texts))

        def decode(it, args, call):
            for i, v in enumerate(texts):
                if x.ctx.diff(deref(x, args[0]), x.it.string("text%d" % (i + 1))) is None:
                    return mk_variant(x, call.rty, "Some", v)
            raise Unknown("reading another text than what was written")
        x.it.opaque[calls["serde_json::encode"]] = encode
        x.it.opaque[calls["serde_json::decode"]] = decode
        a = x.argtys("round_clipboard")
        v = x.sym("nodes", x.to(a[0]))
        upto(x, x.ctx.vec(v), n)
        kind = x.sym("kind", a[1])
        x.ctx.variant(kind)
        got = option(x, x.run("round_clipboard", x.ref(v), kind, mk_variant(x, a[2], "Some", x.ctx.copyval(kind))))
        if got is None:
            x.fail("what was copied can be pasted")
        x.need(got, v, "what is pasted")
    return run


def symbol_ob(x):
    v = x.sym("node", x.to(x.argtys("round_node")[0]))
    if not x.ctx.is_variant(v, "Symbol"):
        raise Dead()
    back(x, "round_node", v)


SHAPES = {"Fraction": [(1, 2)], "Root": [(2, 1)], "Sup": [(1, 1)], "Sub": [(1, 1)], "Table": [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)]}


def container(x, kind, w, h):
    v = x.sym("node", x.to(x.argtys("round_node")[0]))
    if not x.ctx.is_variant(v, "Container") or not x.ctx.is_variant(x.ctx.vget(v, "Container", "0"), kind):
        raise Dead()
    cells, width = grid_parts(x, x.ctx.vget(v, "Container", "1"))
    x.assume(x.eq(width, w))
    upto(x, cells, w * h)
    return v


def container_ob(kind, w, h):
    def run(x):
        by_induction(x, ROW)
        back(x, "round_node", container(x, kind, w, h))
    return run


# ---- data read from outside -----------------------------------------------------------------------------
def read_grid_ob(n):
    def run(x):
        w = x.ctx.mk(x.argtys("read_grid")[1], ("in", "width"))
        got = option(x, x.run("read_grid", P.c(n), w))
        if got is None:
            return
        if x.decide(x.eq(w, 0)):
            x.fail("a document with a grid of no columns is refused")
        _, r = x.ctx.divmod(P.c(n), w)
        x.check(x.eq(r, 0), "a document whose grid has an incomplete row is refused")
        cells, width = grid_parts(x, got)
        x.need(width, w, "the width of the grid read")
        x.need(x.ctx.vlen(cells), P.c(n), "the number of cells read")
    return run


def read_node_ob(kind, n):
    def run(x):
        w = x.ctx.mk(x.argtys("read_node")[2], ("in", "width"))
        got = option(x, x.run("read_node", x.ref(x.it.string(kind)), P.c(n), w))
        fixed = SHAPES[kind][0] if len(SHAPES[kind]) == 1 else None
        if fixed:
            ok = n == fixed[0] * fixed[1] and x.decide(x.eq(w, fixed[0]))
        else:
            ok = x.decide(x.ge(w, 1)) and x.decide(x.eq(x.ctx.divmod(P.c(n), w)[1], 0))
        if got is not None and not ok:
            x.fail("a document with a %s of another shape is refused" % kind.lower())
        if got is None and ok and (fixed or n):
            x.fail("a document with a well-formed %s can be read" % kind.lower())
        if got is None:
            return
        cells, width = grid_parts(x, x.ctx.vget(got, "Container", "1"))
        x.need(width, w, "the width of the %s read" % kind.lower())
        x.need(x.ctx.vlen(cells), P.c(n), "the number of cells read")
    return run


def hooked(obs):
    for o in obs:
        o.hooks = WireHooks
    return obs


def outside(tier):
    top = 6 if tier == "quick" else 8
    return hooked([Ob("a grid of %d cells and any width in a document" % n, read_grid_ob(n), unroll=12) for n in range(top + 1)] +
                  [Ob("a %s of %d cells and any width in a document" % (k.lower(), n), read_node_ob(k, n), unroll=12) for k in SHAPES for n in range(5)])


def w01(tier):
    top = 3 if tier == "quick" else 5
    out = [Ob("written and read: " + what, simple_ob(r), unroll=6) for r, what in SIMPLE]
    out += [Ob("written and read: %s of %d steps" % (what, n), path_ob(r, f, n), unroll=12) for r, what, f in PATHS for n in range(top + 1)]
    out += [Ob("written and read: a row of %d elements" % n, row_ob(n), unroll=12) for n in range(top + 1)]
    out += [Ob("written and read: %d copied elements" % n, nodes_ob(n), unroll=12) for n in range(top + 1)]
    out += [Ob("copied and pasted: %d elements" % n, clipboard_ob(n), unroll=12) for n in range(top + 1)]
    out += [Ob("written and read: a symbol", symbol_ob, unroll=6)]
    out += [Ob("written and read: a %s %d wide and %d high" % (k.lower(), w, h), container_ob(k, w, h), unroll=12) for k, s in SHAPES.items() for w, h in s]
    return hooked(out)
