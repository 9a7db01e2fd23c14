"""G01, G02: grids."""
from .base import *
from .selection import run_or_panic

TOP = 2 ** 64 - 1


def grid_in(x, root="grid_size", name="grid"):
    g = x.sym(name, x.to(x.argtys(root)[0]))
    cells, w = grid_parts(x, g)
    return g, cells, w, grid_rows(x, g)


def index_in(x, w, name=""):
    """Arbitrary coordinates made for a grid of width w; (index value, x, y)."""
    a, b = x.int(name + "x"), x.int(name + "y")
    return x.run("index_new", a, b, w), a, b


def inside(x, a, b, w, h):
    return x.decide(x.lt(a, w)) and x.decide(x.lt(b, h))


def xy(x, i):
    return x.ctx.get(i, "x"), x.ctx.get(i, "y")


def size_ob(x):
    g, cells, w, h = grid_in(x)
    s = x.run("grid_size", x.ref(g))
    x.need(x.ctx.field(s, 0), w, "the width in the size")
    x.need(x.ctx.field(s, 1), h, "the height in the size")
    x.need(x.run("grid_width", x.ref(g)), w, "the width")
    x.need(x.run("grid_height", x.ref(g)), h, "the height")
    x.need(x.run("grid_is_empty", x.ref(g)), x.decide(x.eq(x.ctx.vlen(cells), 0)), "whether the grid is empty")


def order_ob(x):
    g, cells, w, h = grid_in(x)
    got = x.run("grid_values_vec", x.ref(g))
    v = x.ctx.vec(got)
    x.check(x.eq(x.ctx.vlen(v), x.ctx.vlen(cells)), "every cell is visited once")
    k = x.int("k")
    x.assume(x.lt(k, x.ctx.vlen(cells)))
    x.need(deref(x, x.ctx.index(v, k)), x.ctx.index(cells, k), "the k-th cell visited")


def into_ob(x):
    g, cells, w, h = grid_in(x)
    x.need(x.run("grid_into_vec", g), cells, "the cells handed out")


def flat_ob(x):
    g, cells, w, h = grid_in(x)
    i = x.int("i")
    at = x.run("index_from_index", i, x.ref(g))
    q, r = x.ctx.divmod(i, w)
    a, b = xy(x, at)
    x.need(a, r, "the column of a flat index")
    x.need(b, q, "the row of a flat index")
    x.need(x.run("index_to_index", at), i, "the flat index converted to coordinates and back")
    got = option(x, x.run("index_to_index_checked", at, x.ref(g)))
    exists = x.decide(x.lt(i, x.ctx.vlen(cells)))
    if exists != (got is not None):
        x.fail("the checked flat index exists exactly for existing cells")
    if exists:
        x.need(got, i, "the checked flat index")


def coords_ob(x):
    g, cells, w, h = grid_in(x)
    at, a, b = index_in(x, w)
    ga, gb = xy(x, at)
    x.need(ga, a, "the column of an index")
    x.need(gb, b, "the row of an index")
    p = x.run("index_into_pair", at)
    x.need(x.ctx.field(p, 0), a, "the column of the pair")
    x.need(x.ctx.field(p, 1), b, "the row of the pair")
    x.need(x.run("index_to_index", at), b * w + a, "the flat index of coordinates")
    got = option(x, x.run("index_to_index_checked", at, x.ref(g)))
    ok = inside(x, a, b, w, h)
    if ok != (got is not None):
        x.fail("the checked flat index exists exactly for coordinates inside the grid")
    if ok:
        x.need(got, b * w + a, "the checked flat index of coordinates")


def get_ob(x):
    g, cells, w, h = grid_in(x)
    at, a, b = index_in(x, w)
    ok = inside(x, a, b, w, h)
    got = option(x, x.run("grid_get", x.ref(g), at))
    if ok != (got is not None):
        x.fail("a lookup succeeds exactly for coordinates inside the grid")
    if ok:
        x.need(deref(x, got), x.ctx.index(cells, b * w + a), "the cell looked up")


def flat_get_ob(x):
    g, cells, w, h = grid_in(x)
    i = x.int("i")
    ok = x.decide(x.lt(i, x.ctx.vlen(cells)))
    got = option(x, x.run("grid_get_flat", x.ref(g), i))
    if ok != (got is not None):
        x.fail("a lookup by flat index succeeds exactly for existing cells")
    if ok:
        x.need(deref(x, got), x.ctx.index(cells, i), "the cell looked up")


def replaced(x, g, cells, i, v):
    n = x.ctx.vlen(cells)
    new = VecV(x.ctx.slice(cells, ZERO, i).segs + (Elem(Cell(v)),) + x.ctx.slice(cells, i + 1, n - i - 1).segs, cells.ety)
    c, wi = TreeHooks.grid_shape(None, x.ctx, g.ty)
    return Agg(g.ty, 0, [new if k == c else x.ctx.field(g, k) for k in range(len(x.prog.fields(g.ty)))])


def get_mut_ob(x):
    root = "grid_get_mut"
    g, cells, w, h = grid_in(x, root)
    at, a, b = index_in(x, w)
    ok = inside(x, a, b, w, h)
    cell = Cell(g)
    got = option(x, x.run(root, Ref(cell, (), None, True), at))
    if ok != (got is not None):
        x.fail("mutable access succeeds exactly for coordinates inside the grid")
    if ok:
        v = x.sym("new", x.argtys("grid_set")[2])
        x.ctx.write(x.it.deref(got), v)
        x.need(cell.v, replaced(x, g, cells, b * w + a, v), "the grid after writing through mutable access")
    else:
        x.need(cell.v, g, "the grid after failed mutable access")


def set_ob(x):
    root = "grid_set"
    g, cells, w, h = grid_in(x, root)
    at, a, b = index_in(x, w)
    ok = inside(x, a, b, w, h)
    v = x.sym("new", x.argtys(root)[2])
    cell = Cell(g)
    got = option(x, x.run(root, Ref(cell, (), None, True), at, v))
    if ok != (got is not None):
        x.fail("replacing succeeds exactly for coordinates inside the grid")
    if ok:
        x.need(got, x.ctx.index(cells, b * w + a), "the old content")
        x.need(cell.v, replaced(x, g, cells, b * w + a, v), "the grid after replacing a cell")
    else:
        x.need(cell.v, g, "the grid after failed replacement")


def move_ob(root):
    def ob(x):
        g, cells, w, h = grid_in(x)
        x.ctx.max = TOP
        at, a, b = index_in(x, w)
        d = x.sym("d", x.argtys(root)[1])
        dx, dy = x.ctx.field(d, 0), x.ctx.field(d, 1)
        for v in (a, b, dx, dy, w, h, x.ctx.vlen(cells)):
            x.assume(x.ge(TOP, v))
        if root == "index_add_checked":
            na, nb = a + dx, b + dy
            ok = inside(x, na, nb, w, h)
        else:
            na, nb = a - dx, b - dy
            ok = x.decide(x.ge(na, 0)) and x.decide(x.ge(nb, 0)) and inside(x, na, nb, w, h)
        got = option(x, x.run(root, at if not x.prog.t(x.argtys(root)[0])["k"] == "ref" else x.ref(at), d, x.ref(g)))
        if ok != (got is not None):
            x.fail("moving succeeds exactly if the target lies inside the grid")
        if ok:
            ga, gb = xy(x, got)
            x.need(ga, na, "the column moved to")
            x.need(gb, nb, "the row moved to")
            x.need(x.run("index_to_index", got), nb * w + na, "the flat index moved to")
    return ob


def row_mut_ob(x):
    root = "node_row_mut"
    n = x.sym("node", x.to(x.argtys(root)[0]))
    i = x.int("i")
    cont = x.prog.t(n.ty)["variants"][x.ctx.variant(n)]["name"] == "Container"
    if cont:
        g, gi, vi = node_grid(x, n)
        cells, w = grid_parts(x, g)
        if x.decide(x.lt(i, x.ctx.vlen(cells))):
            cell = Cell(n)
            got = x.run(root, Ref(cell, (), None, True), i)
            v = x.sym("new", x.to(x.prog.fns[x.root(root)]["body"]["locals"][0]["ty"]))
            x.ctx.write(x.it.deref(got), v)
            want = Agg(n.ty, vi, [replaced(x, g, cells, i, v) if k == gi else x.ctx.field(n, k, variant=vi)
                                  for k in range(len(x.prog.fields(n.ty, vi)))])
            x.need(cell.v, want, "the element after writing to a child row")
            return
    got, p = run_or_panic(x, root, x.ref(n, True), i)
    if p is None:
        x.fail("mutable access to a missing child row succeeds")


def node_grid_ob(root):
    def ob(x):
        n = x.sym("node", x.to(x.argtys(root)[0]))
        cont = x.prog.t(n.ty)["variants"][x.ctx.variant(n)]["name"] == "Container"
        got = option(x, x.run(root, x.ref(n, root == "node_grid_mut")))
        if cont != (got is not None):
            x.fail("an element has a grid exactly if it is a container")
        if cont:
            x.need(deref(x, got), node_grid(x, n)[0], "the grid of a container")
    return ob


def g01(tier):
    return [Ob("size", size_ob), Ob("cells in order", order_ob), Ob("cells handed out", into_ob), Ob("flat indices", flat_ob),
            Ob("coordinates", coords_ob), Ob("lookup", get_ob), Ob("lookup by flat index", flat_get_ob), Ob("mutable access", get_mut_ob),
            Ob("replacing", set_ob), Ob("moving forwards", move_ob("index_add_checked")), Ob("moving backwards", move_ob("index_sub_checked")),
            Ob("mutable access to child rows", row_mut_ob), Ob("grid of an element", node_grid_ob("node_grid")),
            Ob("mutable grid of an element", node_grid_ob("node_grid_mut"))]


# ---- G02 ------------------------------------------------------------------------------------------
def construct_ob(root):
    def ob(x):
        tys = x.argtys(root)
        v = x.sym("values", tys[0])
        w = x.int("w")
        vec = x.ctx.vec(v)
        n = x.ctx.vlen(vec)
        ok = x.decide(x.ge(w, 1)) and x.decide(C("eq", x.ctx.divmod(n, w)[1]))
        got, p = run_or_panic(x, root, v, w)
        if not ok:
            if p is None:
                x.fail("a grid without columns or with an incomplete row is accepted")
            return
        if p is not None:
            raise p
        if root == "node_table":
            set_is(x, got, "Table")
            got = node_grid(x, got)[0]
        cells, gw = grid_parts(x, got)
        x.need(cells, vec, "the cells of the new grid")
        x.need(gw, w, "the width of the new grid")
    return ob


def set_is(x, node, kind):
    if not x.ctx.is_variant(node, "Container"):
        x.fail("not a container")
    vi = x.prog.variant_index(node.ty, "Container")
    for i, (n, ty) in enumerate(x.prog.fields(node.ty, vi)):
        if x.prog.is_enum(ty) and not x.ctx.is_variant(x.ctx.field(node, i, variant=vi), kind):
            x.fail("not a %s" % kind)


def shape_ob(root, kind, w, n):
    def ob(x):
        v = x.sym("v", x.argtys(root)[0])
        got = x.run(root, v)
        set_is(x, got, kind)
        cells, gw = grid_parts(x, node_grid(x, got)[0])
        want = x.ctx.vec(v) if n > 1 else VecV([Elem(Cell(v))], cells.ety)
        x.check(x.eq(x.ctx.vlen(cells), n), "a %s has %d child rows" % (kind, n))
        x.need(cells, want, "the child rows of a %s" % kind)
        x.need(gw, x.p(w), "the columns of a %s" % kind)
    return ob


def resizable_ob(root):
    def ob(x):
        n = x.sym("n", x.to(x.argtys(root)[0]))
        want = False
        if root == "node_has_resizable_grid":
            if x.ctx.is_variant(n, "Container"):
                vi = x.prog.variant_index(n.ty, "Container")
                for i, (nm, ty) in enumerate(x.prog.fields(n.ty, vi)):
                    if x.prog.is_enum(ty):
                        want = x.ctx.is_variant(x.ctx.field(n, i, variant=vi), "Table")
        else:
            want = x.ctx.is_variant(n, "Table")
        x.need(x.run(root, x.ref(n)), want, "only tables can change their size")
    return ob


def keeps_ob(root):
    """An operation on a grid leaves its size alone."""
    def ob(x):
        g, cells, w, h = grid_in(x, root)
        at, a, b = index_in(x, w)
        cell = Cell(g)
        args = [Ref(cell, (), None, True), at]
        if root == "grid_set":
            args.append(x.sym("new", x.argtys(root)[2]))
        x.run(root, *args)
        c2, w2 = grid_parts(x, x.ctx.expand(cell.v))
        x.need(w2, w, "the width after the operation")
        x.need(x.ctx.vlen(c2), x.ctx.vlen(cells), "the number of cells after the operation")
    return ob


def g02(tier):
    out = [Ob("construction: " + r, construct_ob(r)) for r in ("grid_from_one_dimensional", "node_table")]
    out += [Ob("shape of a " + k, shape_ob(r, k, w, n)) for r, k, w, n in (
        ("node_fraction", "Fraction", 1, 2), ("node_root", "Root", 2, 2), ("node_sup", "Sup", 1, 1), ("node_sub", "Sub", 1, 1))]
    out += [Ob("resizable: " + r, resizable_ob(r)) for r in ("node_has_resizable_grid", "variant_has_resizable_grid")]
    out += [Ob("keeps the size: " + r, keeps_ob(r)) for r in ("grid_set", "grid_get_mut")]
    from .wire import outside
    return out + outside(tier)


# ---- G03: rectangles ---------------------------------------------------------------------------------
def corners(x, root="rect_from_indices"):
    """A grid, two arbitrary cells of it, and the rectangle between them; the expected borders."""
    tys = x.argtys(root)
    g = x.sym("grid", x.to(tys[2]))
    cells, w = grid_parts(x, g)
    h = grid_rows(x, g)
    a, ax, ay = index_in(x, w, "a")
    b, bx, by = index_in(x, w, "b")
    if not (inside(x, ax, ay, w, h) and inside(x, bx, by, w, h)):
        raise Dead()
    lx, rx = (ax, bx) if x.decide(x.ge(bx, ax)) else (bx, ax)
    ty, by_ = (ay, by) if x.decide(x.ge(by, ay)) else (by, ay)
    r = x.run(root, a, b, x.ref(g))
    return g, cells, w, h, r, lx, ty, rx, by_


def is_xy(x, i, a, b, what):
    ga, gb = xy(x, i)
    x.need(ga, a, "the column of " + what)
    x.need(gb, b, "the row of " + what)


def rect_corners_ob(x):
    g, cells, w, h, r, lx, ty, rx, by = corners(x)
    is_xy(x, x.run("rect_start_index", x.ref(r)), lx, ty, "the first cell")
    e = option(x, x.run("rect_end_index", x.ref(r)))
    if e is None:
        x.fail("a rectangle between two cells has no last cell")
    is_xy(x, e, rx, by, "the last cell")
    x.need(x.run("rect_is_empty", x.ref(r)), False, "whether a rectangle between two cells is empty")


def rect_size_ob(x):
    g, cells, w, h, r, lx, ty, rx, by = corners(x)
    x.need(x.run("rect_width", x.ref(r)), rx - lx + 1, "the number of columns of a rectangle")
    x.need(x.run("rect_height", x.ref(r)), by - ty + 1, "the number of rows of a rectangle")
    s = x.run("rect_size", x.ref(r))
    x.need(x.ctx.field(s, 0), rx - lx + 1, "the number of columns in the size of a rectangle")
    x.need(x.ctx.field(s, 1), by - ty + 1, "the number of rows in the size of a rectangle")


def rect_outside_ob(x):
    root = "rect_from_indices"
    g = x.sym("grid", x.to(x.argtys(root)[2]))
    cells, w = grid_parts(x, g)
    h = grid_rows(x, g)
    a, ax, ay = index_in(x, w, "a")
    b, bx, by = index_in(x, w, "b")
    if inside(x, ax, ay, w, h) and inside(x, bx, by, w, h):
        raise Dead()
    got, p = run_or_panic(x, root, a, b, x.ref(g))
    if p is None:
        x.fail("a rectangle reaches a cell outside the grid")


def rect_empty_ob(x):
    root = "rect_new"
    s, e, w = x.int("start"), x.int("end"), x.int("w")
    x.assume(x.ge(w, 1))
    x.assume(x.ge(s, e))
    r = x.run(root, s, e, w)
    x.need(x.run("rect_is_empty", x.ref(r)), True, "whether a range without cells is empty")
    if option(x, x.run("rect_end_index", x.ref(r))) is not None:
        x.fail("a range without cells has a last cell")


def view_ob(x):
    g, cells, w, h, r, lx, ty, rx, by = corners(x)
    v = x.run("grid_get_view", x.ref(g), r)
    x.need(x.run("view_is_empty", x.ref(v)), False, "whether the view is empty")
    i, cx, cy = index_in(x, rx - lx + 1, "c")
    ok = inside(x, cx, cy, rx - lx + 1, by - ty + 1)
    if ok and x.decide(x.ge(h, ty + cy + 1)) and x.decide(x.ge(w, lx + cx + 1)):
        x.assume(x.ge(h, ty + cy + 1))      # follows; stated because products of it with the width are needed
        x.assume(x.ge(w, lx + cx + 1))
    got = option(x, x.run("view_get", x.ref(v), i))
    if ok != (got is not None):
        x.fail("a lookup in a view succeeds exactly for coordinates inside the rectangle")
    if ok:
        x.need(deref(x, got), x.ctx.index(cells, (ty + cy) * w + lx + cx), "the cell seen through the view")


def grid_range_in(x):
    """A grid range on an arbitrary element that is a container, made of two arbitrary cells of it."""
    from .walking import node_focus_in
    f, i, n = node_focus_in(x)
    node = deref(x, x.run("focus_node_node", x.ref(n)))
    if x.prog.t(node.ty)["variants"][x.ctx.variant(node)]["name"] != "Container":
        raise Dead()
    g, _, _ = node_grid(x, node)
    cells, w = grid_parts(x, g)
    h = grid_rows(x, g)
    a, ax, ay = index_in(x, w, "a")
    b, bx, by = index_in(x, w, "b")
    if not (inside(x, ax, ay, w, h) and inside(x, bx, by, w, h)):
        raise Dead()
    r = x.run("rect_from_indices", a, b, x.ref(g))
    gr = x.run("grid_range_new", n, r)
    lx, rx = (ax, bx) if x.decide(x.ge(bx, ax)) else (bx, ax)
    ty, by_ = (ay, by) if x.decide(x.ge(by, ay)) else (by, ay)
    return f, i, g, cells, w, h, r, gr, (lx, ty, rx, by_)


def grid_range_ob(x):
    f, i, g, cells, w, h, r, gr, (lx, ty, rx, by) = grid_range_in(x)
    p = x.run("grid_range_top_left", x.ref(gr))
    x.need(x.ctx.field(p, 0), lx, "the left column of a grid selection")
    x.need(x.ctx.field(p, 1), ty, "the top row of a grid selection")
    p = option(x, x.run("grid_range_bottom_right", x.ref(gr)))
    if p is None:
        x.fail("a grid selection has no bottom right cell")
    x.need(x.ctx.field(p, 0), rx, "the right column of a grid selection")
    x.need(x.ctx.field(p, 1), by, "the bottom row of a grid selection")
    x.need(x.run("grid_range_is_collapsed", x.ref(gr)), False, "whether a grid selection is collapsed")
    x.need(deref(x, x.run("grid_range_grid", x.ref(gr))), g, "the grid of a grid selection")


def grid_range_row_ob(x):
    f, i, g, cells, w, h, r, gr, _ = grid_range_in(x)
    k = x.int("k")
    ok = x.decide(x.lt(k, x.ctx.vlen(cells)))
    got = option(x, x.run("grid_range_get_row", x.ref(gr), k))
    if ok != (got is not None):
        x.fail("a row of the selected grid is found exactly if it exists")
    if ok:
        x.need(deref(x, got), x.ctx.index(cells, k), "a row of the selected grid")


def grid_stored_ob(x):
    from .selection import focus_path
    f, i, g, cells, w, h, r, gr, _ = grid_range_in(x)
    m = x.run("grid_range_to_minimal", x.ref(gr))
    x.need(x.ctx.get(m, "row_indices"), focus_path(x, f), "the path of a stored grid selection")
    x.need(x.ctx.get(m, "index"), i, "the element of a stored grid selection")
    x.need(x.ctx.get(m, "range"), r, "the rectangle of a stored grid selection")


def grid_read_ob(depth):
    def ob(x):
        from .selection import root_focus
        root = "grid_range_from_minimal"
        t, f = root_focus(x)
        m = x.sym("stored", x.to(x.argtys(root)[1]))
        path = x.ctx.get(m, "row_indices")
        x.assume(x.eq(path_len(x, path), depth))
        row = walk(x, x.ctx.get(t, "root"), path, depth)[-1]
        i = x.ctx.get(m, "index")
        exists = x.decide(x.lt(i, row_len(x, row)))
        got, p = run_or_panic(x, root, f, x.ref(m))
        if not exists:
            if p is None:
                x.fail("a stored grid selection in a missing element is accepted")
            return
        if p is not None:
            raise p
        back = x.run("grid_range_to_minimal", x.ref(got))
        x.need(back, m, "a stored grid selection read and stored again")
    return ob


def g03(tier):
    return [Ob("corners", rect_corners_ob), Ob("size", rect_size_ob), Ob("cells outside the grid", rect_outside_ob), Ob("no cells", rect_empty_ob),
            Ob("view", view_ob), Ob("selection", grid_range_ob), Ob("rows of the selected grid", grid_range_row_ob), Ob("storing", grid_stored_ob)] + \
        [Ob("reading back, path of %d steps" % d, grid_read_ob(d)) for d in range(3 if tier == "quick" else 5)]
